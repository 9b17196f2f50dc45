#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
P, NA = [], []
VG = 'value-graph equivalence on the compiler IR (GVN-style normal forms over all paths, loops as recurrences)'
GE = 'guard and effect analysis (path-sensitive must-facts, typestate of effects, over the whole function and its callees)'
NOTE = {
 VG: 'Every output of the function (stores, returns, throws) is compared as a normal form with the reference for all inputs; trusts clang -O passes (inlining, mem2reg, unrolling), the IR reader and the reference in ref/. If a rewrite changes the loop structure the comparison falls back to a fixed list of lengths with unconstrained contents.',
 GE: 'For every path of the listed functions the required facts are established and the effects happen only under them, with helpers inlined; trusts clang\'s AST on declarations-only stand-ins for the missing submodules (shim/), and the must-analysis of sem.py (unknown calls keep no facts about what they may write).'}
def prop(id, title, statement, over, text, why, files, mech, tech=GE, note='', state=()):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over.split(), text=' '.join(text.split()), why=' '.join(why.split()), files=files, mech=mech, tech=tech, note=note, state=state))
def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech); NA.append((id, ' '.join(reason.split())))

for f in sorted(os.listdir(os.path.join(HERE, 'catalog'))):
    if f.endswith('.py'): exec(compile(open(os.path.join(HERE, 'catalog', f)).read(), f, 'exec'))

def main():
    nas = dict(NA)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['id']
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['state']: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    checks = []
    for p in sorted(P, key=lambda p: p['id']):
        if p['id'] in nas: continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                       'technique': p['tech'], 'level': 'other', 'level_note': (p['note'] + ' ' if p['note'] else '') + NOTE[p['tech']]})
    m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': [{'property': i, 'reason': r} for i, r in NA],
         'notes': 'No hooks: the checks only read /repo. All checks read the current sources on every run; nothing is executed from /repo.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties,', len(checks), 'checks')
if __name__ == '__main__': main()
