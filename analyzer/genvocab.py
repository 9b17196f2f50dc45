"""(Re)creates vocab.txt: the functions of the code base the rules were written against.  Functions that are not in
this list are helpers introduced later and are always analysed in place (inlined)."""
import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
os.chdir(facts.REPO)
import re
tus = [t for t in sorted(glob.glob('src/*.cpp') + glob.glob('src/*/*.cpp')) if not re.search(r'cuda|sha256_(ni|arm|avx2)|win|Qt_GUI', t)]
p = facts.load(tus)
names = set(p.fns)
# declared-only functions (methods of records)
for r in p.recs.values():
    for m in r['methods']:
        names.add(r['name'] + '::' + (m['name'] if isinstance(m, dict) else m[0] if isinstance(m, list) else m))
def calls(n):
    if isinstance(n, (list, tuple)):
        if n and n[0] == 'call' and isinstance(n[2], str): names.add(n[2])
        for x in n: calls(x)
for l in p.fns.values():
    for f in l: calls(f.get('body')); calls(f.get('inits'))
names = {n for n in names if n and not n.startswith(('std::', '__gnu', '__builtin'))}
open(os.path.join(facts.HERE, 'vocab.txt'), 'w').write('\n'.join(sorted(names)))
print(len(names))
