#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]
Decides one property by static analysis of /repo's current source.  exit 0: holds, 1: violated, 2: no answer."""
import importlib, json, os, re, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'analyzer'), HERE]
sys.setrecursionlimit(20000)
import facts, spec
from facts import NoAnswer

def find(pid):
    for m in sorted(os.listdir(os.path.join(HERE, 'props'))):
        if m.endswith('.py') and re.search(r'^def %s\(' % pid, open(os.path.join(HERE, 'props', m)).read(), re.M):
            return getattr(importlib.import_module('props.' + m[:-3]), pid)
    if os.path.exists(os.path.join(HERE, 'props', pid + '.spec')): return lambda c: c.spec(pid)
    raise NoAnswer('no rule set for ' + pid)

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    c = spec.Check(pid); c.tier = tier
    try:
        find(pid)(c)
        c.run()
    except NoAnswer as e:
        print('NO ANSWER property=%s: %s' % (pid, e)); return 2
    except Exception:
        traceback.print_exc(); print('NO ANSWER property=%s: internal error' % pid); return 2
    if not c.na and len(c.obls) < c.min_obl:
        print('NO ANSWER property=%s: only %d obligations were generated, expected at least %d' % (pid, len(c.obls), c.min_obl)); return 2
    known = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if k['property'] == pid]
    new, old = [], []
    for v in c.viol:
        k = next((k for k in known if k['function'] == v['function'] and k['obligation'] == v['obligation']), None)
        (old if k else new).append((v, k))
    for f, i in c.fns.items(): print('analysed %s:%d %s  (%d events%s)' % (i['file'], i['line'], f, i['events'], ', inlined ' + ', '.join(i['inlined']) if i['inlined'] else ''))
    print('%s: %d obligations over %d functions in %d translation units, %d violated' % (pid, len(c.obls), len(c.fns), len(c.prog.tus) if c.prog else 0, len(c.viol)))
    for v, k in old: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    os.makedirs(spec.OUT, exist_ok=True)
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED') or 1), 'level': 'other',
          'coverage': {'explanation': 'static analysis of the current source: every obligation is decided on the must-facts / effects computed over all paths of the listed functions',
                       'functions_analysed': len(c.fns), 'functions': c.fns, 'obligations': len(c.obls), 'discharged': sum(1 for o in c.obls if o[1]),
                       'translation_units': c.prog.tus if c.prog else [], 'rules': c.rules, 'obligation_list': [o[0] for o in c.obls][:400], **c.extra},
          'wall_s': round(time.time() - t0, 2)}
    with open(os.path.join(spec.OUT, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    if new:
        rp = os.path.join(spec.OUT, pid + '.replay.txt')
        with open(rp, 'w') as f:
            f.write('static analysis of %s; reproduce with: python3 %s/check.py %s\n\n' % (facts.REPO, HERE, pid))
            for v, _ in new:
                f.write('%s:%d in %s\n  violated: %s\n' % (v['file'], v['line'], v['function'], v['obligation']))
                for key in ('why', 'path', 'more'):
                    if v[key]: f.write('  %s: %s\n' % (key, v[key]))
        for v, _ in new[:12]: print('  %s:%d %s: %s %s' % (v['file'], v['line'], v['function'], v['obligation'][:400], '[' + v['why'] + ']' if v['why'] else ''))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if c.na: print('NO ANSWER property=%s: %s' % (pid, '; '.join(c.na))); return 2
    return 0
sys.exit(main())
