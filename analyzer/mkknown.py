"""writes known.json: the functions (name -> [[signature, file or class], ..]) and data members of the analysed files, for recognising renamed ones"""
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ['MMX_NO_RENAME'] = '1'
import facts
tus = set()
for f in glob.glob(facts.VERIF + '/props/*.spec'):
    for l in open(f):
        if l.startswith('tus '): tus |= set(l.split()[1:])
p = facts.load(sorted(tus))
items = [x for l in p.fns.values() for x in l] + list(p.recs.values())
out = {n: sorted(l) for n, l in facts.signatures(items).items()}
with open(facts.HERE + '/known.json', 'w') as f: json.dump({'functions': out, 'fields': facts.fields(items)}, f, indent=0, sort_keys=True)
print(len(out))
