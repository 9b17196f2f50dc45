import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts, sem
def main():
    tus, name = sys.argv[1].split(','), sys.argv[2]
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('tu'); ap.add_argument('fn'); ap.add_argument('--sig'); ap.add_argument('--inline', default=''); ap.add_argument('--did'); ap.add_argument('--ev', action='store_true'); ap.add_argument('--max', type=int, default=3); ap.add_argument('--cur', action='store_true'); ap.add_argument('--all', action='store_true')
    a = ap.parse_args()
    p = facts.load(a.tu.split(','))
    f = p.get(a.fn, a.sig)
    import spec; vocab = spec.vocab() if not a.all else set()
    an = sem.Analysis(p, inline=[x for x in a.inline.split(',') if x], base_vocab=vocab).run(f, did=a.did)
    if an.exit_state is None or an.exit_state.dead: print('NO NORMAL EXIT')
    else:
        for c in sorted(an.exit_state.was.s, key=lambda c: (len(c), sem.cshow(c))):
            if len(c) <= a.max: print('  ', sem.cshow(c)[:400])
    if a.ev:
        for e in an.events:
            print(e.kind, e.line, e.text[:300]); 
            if a.cur: print('        ', ' & '.join(sem.fshow(x) for x in e.path)[:600])
main()
