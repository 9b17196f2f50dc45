"""Obligations of the form "this function computes that function", decided on value graphs (irgvn.py).

general      : the function as written, every input (loops as recurrences), against the reference's value graph
specialised  : instances with a fixed length / count and unconstrained data, all loops peeled, against the definition
The instances are decisive only when the general graphs have a different shape (for example after a refactoring)."""
import os, re, shutil, tempfile, time
import facts, irgvn, bv
from facts import NoAnswer

REFDIR = os.path.join(facts.VERIF, 'ref')
def workdir():
    import importlib.util
    d = tempfile.mkdtemp(prefix='mmxref')
    s = importlib.util.spec_from_file_location('sha2_const', os.path.join(REFDIR, 'sha2_const.py'))
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    open(os.path.join(d, 'sha2_const.h'), 'w').write(m.header())
    return d

# shifts by the word size or more must not be folded to arbitrary values
TRAP = ['-fsanitize=shift-exponent', '-fsanitize-trap=shift-exponent']
def file_of(src): return os.path.relpath(re.findall(r'"([^"]+)"', src)[0], facts.REPO)
class IR:
    def __init__(self, c):
        self.c, self.dir = c, workdir()
        self.stats = {'value_graphs': 0, 'outputs_compared': 0, 'general': [], 'specialised': []}
        c.extra['value_graphs'] = self.stats
    def done(self): shutil.rmtree(self.dir, ignore_errors=True)
    def module(self, text, keep=(), flags=(), include=(), passes=None):
        p = os.path.join(self.dir, 'tu%d.cpp' % len(os.listdir(self.dir)))
        open(p, 'w').write(text)
        return irgvn.lower(p, keep=keep, flags=flags, include=list(include) + [facts.REPO + '/include', REFDIR, self.dir], passes=passes)
    def info(self, file, name, n):
        path = os.path.join(facts.REPO, file)
        line = 1
        short = name.split('::')[-1]
        try:
            for i, l in enumerate(open(path), 1):
                if re.search(r'(?<![\w])%s\s*\(' % re.escape(short), l) and not l.rstrip().endswith(';'): line = i; break
        except OSError: pass
        f = {'name': name, 'sig': '', 'file': file, 'line': line}
        self.c.fns.setdefault(name, {'file': file, 'line': line, 'events': 0, 'inlined': []})
        self.c.fns[name]['events'] += n
        return f
    def summary(self, mod, name, peel=False, flip=False):
        e = irgvn.Eval(mod, mod.find(name), peel=peel)
        e.flip = flip
        a = e.run()
        self.stats['value_graphs'] += 1
        return a
    def equal(self, file, pairs, ref, what, keep=(), flags=(), include=(), repo_text=None, alias=None, instances=(), extra_instances=(), pre='', ignore=None, ipre='', onlylab=None):
        """pairs: (shown name, mangled substring in the repo, mangled substring in the reference)
        instances: list of (shown name, description, C body in terms of the repo, C body in terms of the reference)"""
        c = self.c
        src = '#include "%s"\n' % os.path.join(facts.REPO, file)
        general = {}
        if pairs:
            try:
                m = self.module(pre + (repo_text or src), keep, flags, include)
                r = self.module(ref, keep, flags, include)
            except NoAnswer as e:
                if not instances: raise
                m = None; err = str(e)
            for shown, a, b in pairs:
                try:
                    if m is None: raise NoAnswer(err)
                    A, B = self.summary(m, a), self.summary(r, b)
                    x, y = irgvn.compare(A, B)
                    if x and any('value starting as' in l for l, _ in x):
                        # loop-carried values with equal start values may be numbered in the other order
                        x2, y2 = irgvn.compare(self.summary(m, a, flip=True), B)
                        if len(x2) < len(x): x, y = x2, y2
                    general[shown] = (x, y, len(B), A)
                except (NoAnswer, KeyError, ValueError, RecursionError) as e:
                    general[shown] = str(e)
        ok = all(not isinstance(g, str) and not g[0] and not g[1] for g in general.values()) and bool(general)
        inst = []
        if instances and (not ok or c.tier == 'thorough' or not pairs): inst += list(instances)
        if c.tier == 'thorough': inst += list(extra_instances)
        sure = {k: irgvn.definite(g[0], g[1]) for k, g in general.items() if not isinstance(g, str) and (g[0] or g[1])}
        res = []
        if inst and not any(sure.values()): res = self.instances(src, inst, flags, include, ipre or pre, ignore, onlylab)
        if not ok and inst and not any(sure.values()) and all(isinstance(r[2], list) and not r[2] for r in res):
            # different shape, same function on every instance
            self.stats['specialised'].append({'file': file, 'instances': len(res), 'note': 'the general value graphs differ in shape: ' + '; '.join('%s: %s' % (k, g if isinstance(g, str) else ', '.join(sorted({l[:60] for l, _ in g[0] + g[1]})[:3])) for k, g in general.items())[:600]})
            ok = None
        for shown, g in general.items():
            if isinstance(g, str):
                if ok is None: continue
                if not inst: raise NoAnswer('%s: %s' % (shown, g))
                if any(sure.values()): continue
                continue
            f = self.info(file, shown, len(g[3]))
            self.stats['outputs_compared'] += g[2]
            if ok is None: continue
            self.stats['general'].append(shown)
            labs = {}
            for l, v in g[0]: labs.setdefault(l[:120], [None, None])[0] = v
            for l, v in g[1]: labs.setdefault(l[:120], [None, None])[1] = v
            if not labs: c.obl(f, '%s computes %s (all %d outputs, for every input)' % (shown, what, g[2]), True)
            for l, at in sure.get(shown, []):
                c.obl(f, '%s computes %s: %s' % (shown, what, l[:80]), False, 'another function of the same inputs, for example with ' + at)
            for l, (p, q) in list(labs.items())[:8]:
                c.obl(f, '%s computes %s: %s' % (shown, what, l), False, 'the code has %s ; required %s' % (irgvn.shows(p, 2)[:200] if p is not None else 'nothing', irgvn.shows(q, 2)[:200] if q is not None else 'nothing'))
        if instances: self.objects(src, [instances[i * len(instances) // 12] for i in range(12)] if len(instances) > 12 else list(instances), flags, include, ipre or pre)
        for shown, desc, d, n in res:
            f = self.info(file, shown, n)
            self.stats['outputs_compared'] += n
            if isinstance(d, str):
                if ok: continue
                raise NoAnswer('%s, %s: %s' % (shown, desc, d))
            if ok is not False or not d or True:
                c.obl(f, '%s computes %s for %s and every content' % (shown, what, desc), not d, '' if not d else 'differs in %s' % ', '.join(x[:80] for x in d[:4]))
        return ok
    def objects(self, src, inst, flags, include, pre=''):
        """no access outside a local object or constant table (before any simplification could drop it)"""
        t = pre + src + '#include "sha2.h"\n#include "defs.h"\nextern "C" {\n' + ''.join('void repo_%d_(uint8_t* out, uint8_t* in) { %s }\n' % (i, a) for i, (_, _, a, b) in enumerate(inst)) + '}\n'
        try: m = self.module(t, (), flags, include, passes='cgscc(inline),globaldce,function(simplifycfg,mem2reg,simplifycfg,loop-simplify,lcssa)')
        except NoAnswer: return
        by, end = {}, time.time() + 40
        for i, (shown, desc, a, b) in enumerate(inst):
            if time.time() > end: break
            try: A = self.summary(m, 'repo_%d_' % i, True)
            except (NoAnswer, KeyError, ValueError, RecursionError): continue
            by.setdefault(shown, []).append((desc, [l for l, v in A if re.match(r'(read|write) of \d+ bytes at offset', l)] + irgvn.uninitialised(A)))
        for shown, l in by.items():
            bad = [(d, x) for d, x in l if x]
            self.c.obl(self.info(file_of(src), shown, len(l)), '%s stays inside its local objects and constant tables and reads no uninitialised byte in %d instances' % (shown, len(l)), not bad, '; '.join('%s: %s' % (d, x[0]) for d, x in bad[:3]))
    def instances(self, src, inst, flags, include, pre='', ignore=None, only=None):
        t = pre + src + '#include "sha2.h"\n#include "defs.h"\nextern "C" {\n'
        for i, (shown, desc, a, b) in enumerate(inst):
            t += 'void repo_%d_(uint8_t* out, uint8_t* in) { %s }\nvoid refr_%d_(uint8_t* out, uint8_t* in) { %s }\n' % (i, a, i, b)
        t += '}\n'
        m = self.module(t, (), list(flags) + TRAP, include)
        out = []
        for i, (shown, desc, a, b) in enumerate(inst):
            try:
                A, B = self.summary(m, 'repo_%d_' % i, True), self.summary(m, 'refr_%d_' % i, True)
                x, y = irgvn.compare(A, B)
                if x or y:
                    same = set()  # two forms of one value: the forms agree on every sampled assignment of their free variables
                    irgvn.definite(x[:2], y, same, 8); same = same and {l for l, _ in x} if len(same) == min(2, len(x)) and {l for l, _ in x} == {l for l, _ in y} else set()
                    if same: self.stats['other_form'] = self.stats.get('other_form', 0) + len(same)
                    x, y = [[(l, v) for l, v in z if l not in same] for z in (x, y)]
                if sum(1 for o in out if isinstance(o[2], list) and o[2]) >= 4: break
                out.append((shown, desc, sorted({l for l, _ in x + y if not (ignore and ignore in l) and (only is None or only in l or l == 'undefined shift')}), len(B)))
            except (NoAnswer, KeyError, ValueError, RecursionError) as e: out.append((shown, desc, 'no answer: ' + str(e), 0))
        return out
