"""Authoring aid (not used by the checks): prints the summary of a function in spec syntax, to be reviewed by hand."""
import sys, os, re, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts, sem, spec
sys.setrecursionlimit(20000)
NOISE = re.compile(r'^(did )?(ret = |)(to_string|log|stream|get_time|what|reserve)\(|#|fold\(|find_if|lambda|\?|rec-lambda|maybe\(')
def strip_names(t): return re.sub(r'(%[\w<>:,*]*?[\w>*](?:\[\d*\])*):(?!:)(\w+)(?![\w:><]|,\S)', r'\1', t)
def summary(prog, f, inline=(), opaque=(), maxlits=5, did='.*', keep_fold=False):
    an = sem.Analysis(prog, inline=inline, opaque=opaque, base_vocab=spec.vocab()).run(f, did=did)
    out = []
    pure = {e.text for e in an.events if e.kind == 'pure'} | {e.text for e in an.events if e.kind == 'newobj'}
    es = an.exit_state
    if es is not None and not es.dead:
        seen = set()
        units, _ = sem.propagate(es.was.s)
        red = set()
        for c in es.was.s:
            if any(l in units for l in c): continue
            red.add(frozenset(l for l in c if (l[0], not l[1]) not in units))
        red |= {frozenset([l]) for l in units}
        cl = sorted((c for c in red if 0 < len(c) <= maxlits), key=lambda c: (len(c), sem.cshow(c)))
        kept = []
        for c in cl:
            if any(len(k) < len(c) and k <= c for k in kept): continue
            kept.append(c)
            if any(NOISE.search(a) if not keep_fold else '#' in a for a, p in c): continue
            if any(a.startswith(('did log', 'did newobj', 'did return', 'did ctor:')) for a, p in c): continue
            if any(re.match(r'(ret|out \$\d+) = ite\(', a) for a, p in c): continue
            if any(a[4:] in pure for a, p in c): continue
            if any(not p and a.startswith('did ') for a, p in c): continue
            t = strip_names(sem.cshow(c))
            if t not in seen: seen.add(t); out.append('exit ' + t)
        v = es.env.get((1, 'ret'))
        if v is not None and v[0] == 'f':
            for nm, ff in (('true', v[1]), ('false', sem.Not(v[1]))):
                for c in sem.cnf(ff) or []: out.append('%s %s' % (nm, strip_names(sem.cshow(c))))
        out = [o for o in out if not (v is not None and v[0] == 'f' and '{ret = ' in o)]
    else: out.append('# no normal exit')
    evs = {}
    for e in an.events:
        if e.kind in ('newobj', 'catch', 'ret', 'pure', 'throw') or e.text.startswith('ctor:'): continue
        if re.match(r'(to_string|log|reserve|what)\(', e.text): continue
        conds = []
        for p in e.path:
            for c in sem.cnf(p) or []:
                if any('#' in a for a, q in c): continue
                if es is not None and not es.dead and c in es.was.s: continue
                conds.append(sem.cshow(c))
        evs.setdefault(strip_names(e.text), []).append(conds)
    for t, l in evs.items():
        common = [c for c in l[0] if all(c in x for x in l)]
        out.append('at %s%s' % (t, ''.join(' ;; ' + strip_names(c) for c in common)))
    return out
if __name__ == '__main__':
    ap = argparse.ArgumentParser(); ap.add_argument('tu'); ap.add_argument('fn'); ap.add_argument('--sig'); ap.add_argument('--inline', default=''); ap.add_argument('--max', type=int, default=5); ap.add_argument('--fold', action='store_true'); ap.add_argument('--noat', action='store_true'); ap.add_argument('--w', type=int, default=100000)
    ap.add_argument('--seq'); a = ap.parse_args()
    p = facts.load(a.tu.split(','))
    f = p.get(a.fn, a.sig)
    print('fn %s%s%s' % (a.fn, ' sig=' + a.sig if a.sig else '', ' inline=' + a.inline if a.inline else ''))
    if a.seq:
        an = sem.Analysis(p, inline=[x for x in a.inline.split(',') if x], base_vocab=spec.vocab()).run(f)
        print('seq %s' % a.seq + ''.join(' ;; %s%s' % (strip_names(t), ' ?? ' + ' && '.join(strip_names(c) for c in sorted(cs)) if cs else '') for t, cs, e in spec.sequence(an, a.seq)))
        sys.exit()
    for l in summary(p, f, [x for x in a.inline.split(',') if x], maxlits=a.max, keep_fold=a.fold):
        if a.noat and l.startswith('at '): continue
        print(l[:a.w])
