"""Rule language on top of the guard/effect analysis.

A property module builds a Check and states obligations about functions of the code base.  Texts are the canonical
texts of sem.py; in them
    …          matches any text
    ‥          matches one operand (no operator outside parentheses)
    %Type      matches a local object of that type whatever its name
    {a} | !{b} is a clause: a holds or b does not hold
"""
import json, os, re, sys, time
import facts, sem
from facts import NoAnswer

OUT = os.environ.get('MMX_OUT') or os.path.join(facts.VERIF, 'evidence')
_vocab = None
def vocab():
    global _vocab
    if _vocab is None:
        with open(os.path.join(facts.HERE, 'vocab.txt')) as f:
            _vocab = frozenset(f.read().split('\n'))
    return _vocab

_pat = {}
def pat(text):
    """compiled pattern for a canonical text"""
    r = _pat.get(text)
    if r is None:
        r = _pat[text] = re.compile(_rx(text))
    return r
def _rx(text):
    m = top_eq(text)
    if m:
        a, b = m
        return '(?:%s == %s|%s == %s)' % (_rx1(a), _rx1(b), _rx1(b), _rx1(a))
    return _rx1(text)
# one operand: no operator outside parentheses
PRIMARY = r'[^\s(){}]*?'
for _ in range(6): PRIMARY = r'(?:[^\s(){}]|[({]' + ('[^(){}]*?' if _ == 0 else PRIMARY.replace(r'[^\s(){}]', r'[^(){}]')) + r'[)}])*?'
def _rx1(text):
    out = ''
    for part in re.split(r'(…|‥|%[\w<>:,*]*[\w>*](?:\[\d*\](?::\w+)?)*|#\w+)', text):
        if part == '…': out += '.*?'
        elif part == '‥': out += PRIMARY
        elif part.startswith('%') and len(part) > 1: out += re.escape(part) + (r'(?::\w+)?' if ':' not in re.sub('::', '', part) else '')
        elif part.startswith('#'): out += r'#\w+'
        else: out += re.escape(part)
    return out
def top_eq(t):
    d = 0
    for i, ch in enumerate(t):
        if ch in '([{': d += 1
        elif ch in ')]}': d -= 1
        elif d == 0 and t.startswith(' == ', i): return t[:i], t[i + 4:]
    return None
def plain(text): return '…' not in text and '‥' not in text and '%' not in text and '#' not in text

def parse_clause(s):
    """'!{a} | {b}' -> list of (pattern-or-text, pos)"""
    i, out = 0, []
    s = s.strip()
    while i < len(s):
        if s[i] in ' |': i += 1; continue
        pos = True
        if s[i] == '!': pos = False; i += 1
        if s[i] != '{': raise ValueError('bad clause: ' + s)
        d, j = 0, i
        while True:
            if s[j] == '{': d += 1
            elif s[j] == '}':
                d -= 1
                if d == 0: break
            j += 1
        t = s[i + 1:j]
        out.append((t if plain(t) else pat(t), pos, t))
        i = j + 1
    return out

def holds(fx, clause):
    lits = parse_clause(clause)
    return sem.entails(fx, [(norm_atom(a, t), p) for a, p, t in lits])
def norm_atom(a, t):
    if isinstance(a, str):
        m = top_eq(a)
        if m and m[1] < m[0]: return '%s == %s' % (m[1], m[0])
    return a

def counting(a, pos):
    if not pos:
        m = re.match(r'(\d+) < idx\((\d+)\)$', a)
        return bool(m) and int(m.group(1)) == int(m.group(2)) - 1
    m = re.match(r'idx\((.*)\) < (.*)$', a)
    return bool(m) and (m.group(1) == m.group(2) or m.group(1).startswith(m.group(2) + ', ') or m.group(2) == 'size(%s)' % m.group(1))
def elem_of(t):
    out, i = [], t.find('elem(')
    while i >= 0:
        d, j = 0, i + 4
        while j < len(t):
            if t[j] == '(': d += 1
            elif t[j] == ')':
                d -= 1
                if d == 0: break
            j += 1
        out.append(t[i + 5:j]); i = t.find('elem(', i + 5)
    return out

LOCALEFF = re.compile(r'^(at\()*%|^ctor:|^push\(%')

class Fn:
    def __init__(self, chk, name, sig=None, file=None, inline=(), opaque=(), this='this'):
        if '<' in name: name = name.replace('~', ' ')
        self.c, self.name = chk, name
        self.f, self.gone = None, None
        try: self.f = chk.prog.get(name, sig, file)
        except NoAnswer as e: self.gone = str(e)
        self.inline, self.opaque, self.this = inline, opaque, this
        self.todo = []
        self.didpats = []
    # --- obligations (collected, evaluated in run())
    def exit(self, *clauses, why=''): 
        for c in clauses: self.todo.append(('exit', c, why))
        return self
    def true(self, *clauses, why=''):
        for c in clauses: self.todo.append(('true', c, why))
        return self
    def rethrow(self, *clauses, why=''):
        for c in clauses: self.todo.append(('rethrow', c, why))
        return self
    def raises(self, sits, why=''):
        if self.todo and self.todo[-1][0] == 'raise': self.todo[-1][1].append(sits)
        else: self.todo.append(('raise', [sits], why))
        return self
    def raised(self, e, sits):
        import itertools
        lits = lambda c: re.split(r'(?<=\}) \| (?=!?\{)', c)
        neg = lambda l: l[1:] if l[0] == '!' else '!' + l
        def ok(was, cur, known=frozenset(), depth=6):
            # the situations together must cover the path: split on a condition that is still open
            best = None
            for s in sits:
                rem = [c for c in s if not (holds(was, c) or holds(cur, c) or any(l in known for l in lits(c)))]
                if not rem: return True
                if any(all(neg(l) in known or holds(was, neg(l)) or holds(cur, neg(l)) for l in lits(c)) for c in rem): continue
                if best is None or len(rem) < len(best): best = rem
            if best is None or not depth: return False
            l = next((l for c in best for l in lits(c) if neg(l) not in known), None)
            return l is not None and ok(was, cur, known | {l}, depth - 1) and ok(was, cur, known | {neg(l)}, depth - 1)
        if ok(e.was, e.cur): return True
        alts = [list(cl) for q in e.path for cl in sem.cnf(q) or [] if len(cl) > 1]
        n = 1
        for a in alts: n *= len(a)
        if not alts or n > 256: return False
        for case in itertools.product(*alts):
            was, cur = e.was, e.cur
            for a, p in case:
                f = sem.L(a) if p else sem.Not(sem.L(a))
                was, cur = was.assume(f), cur.assume(f)
            if not ok(was, cur): return False
        return True
    def each(self, ev, *clauses, why=''):
        """in every situation given by the clauses an event matching ev happens"""
        self.todo.append(('each', ev, clauses, why)); return self
    def covered(self, evs, conds):
        import itertools
        # (conditions of unknown outcome and the bound of a counting loop say nothing about the situation)
        paths = [(e, [cl for q in e.path for cl in sem.cnf(q) or [] if not any(a.startswith('#') or counting(a, pp) for a, pp in cl)]) for e in evs]
        atoms = {a for _, cls in paths for cl in cls for a, _ in cl}
        fs = set()
        for c in conds:
            opts = []
            for a, pos, t in parse_clause(c):
                if isinstance(a, str): opts.append([(norm_atom(a, t), pos)])
                else: opts.append([(x, pos) for x in atoms if a.fullmatch(x)] or [('<none:%s>' % t, pos)])
            n = 1
            for o in opts: n *= len(o)
            if n > 64: opts = [o[:3] for o in opts]
            fs.update(frozenset(x) for x in itertools.product(*opts))
        def ok(fx, evp, depth=6):
            best = None
            for e, cls in evp:
                rem = [cl for cl in cls if not sem.entails(fx, cl)]
                if not rem: return True
                if any(all(sem.entails(fx, [(a, not pp)]) for a, pp in cl) for cl in rem): continue
                if best is None or len(rem) < len(best): best = rem
            if best is None or not depth: return False
            a, pp = min(best[0])
            return ok(sem.Facts(fx.s | {frozenset([(a, pp)])}), evp, depth - 1) and ok(sem.Facts(fx.s | {frozenset([(a, not pp)])}), evp, depth - 1)
        for e, cls in paths:
            # an element of a container is only looked at when there is one
            fs.update(frozenset([('empty(%s)' % m, False)]) for m in elem_of(e.text))
        return ok(sem.Facts(fs), paths)
    def value(self, pat, why=''):
        self.todo.append(('value', pat, why)); return self
    def false(self, *clauses, why=''):
        for c in clauses: self.todo.append(('false', c, why))
        return self
    def at(self, ev, *clauses, min=1, why='', max=None):
        """every event matching ev happens only where all clauses hold (established before and still valid, or established once)"""
        for c in clauses:
            self.didin(c)
        self.todo.append(('at', ev, clauses, min, max, why)); return self
    def did(self, *evs, unless=None, why=''):
        """on every normal return an event matching ev has happened"""
        for ev in evs:
            self.didpats.append(ev)
            self.todo.append(('did', ev, unless, why))
        return self
    def only(self, select, *allow, why=''):
        self.todo.append(('only', select, allow, why)); return self
    def effects(self, *allow, why=''):
        self.todo.append(('effects', allow, why)); return self
    def ret(self, *vals, why=''):
        self.todo.append(('ret', vals, why)); return self
    def throws(self, *clauses, why=''):
        """the function cannot return normally unless one of ... : a normal exit establishes the clause (alias of exit)"""
        return self.exit(*clauses, why=why)
    def seq(self, select, items, why=''):
        self.todo.append(('seq', select, items, why)); return self
    def didin(self, clause):
        for a, p, t in parse_clause(clause):
            if t.startswith('did '): self.didpats.append(t[4:])
    def run(self):
        c = self.c
        if self.gone: raise NoAnswer(self.gone)
        for o in self.todo:
            if o[0] in ('exit', 'true', 'false', 'rethrow'):
                self.didin(o[1])
        did = '|'.join('^(?:%s)$' % _rx(t) for t in self.didpats) or None
        an = sem.Analysis(c.prog, inline=self.inline, opaque=self.opaque, base_vocab=vocab())
        an.run(self.f, did=did, this=self.this)
        self.an = an
        c.analysed(self.f, an)
        es = an.exit_state
        dead = es is None or es.dead
        for o in self.todo:
            if o[0] == 'exit':
                ok = dead if o[1] == '{never returns}' else not dead and holds(es.was, o[1])
                c.obl(self.f, 'every normal return of %s has established  %s' % (self.name, o[1]), ok, o[2], lambda: self.explain_exit())
            elif o[0] in ('true', 'false'):
                v = es.env.get((1, 'ret')) if not dead else None
                if v is None: raise NoAnswer('%s has no return value' % self.name)
                f = sem.truth(v)
                st = es.assume(f if o[0] == 'true' else sem.Not(f))
                ok = st.dead or holds(st.was, o[1])
                if not ok:
                    # each return on its own
                    ok = True
                    for rv, rs in an.final:
                        f = sem.truth(rv) if rv is not None else sem.T
                        rs = rs.assume(f if o[0] == 'true' else sem.Not(f))
                        if not (rs.dead or holds(rs.was, o[1])): ok = False; break
                c.obl(self.f, '%s returns %s only if  %s' % (self.name, o[0], o[1]), ok, o[2], lambda: self.explain_exit())
            elif o[0] == 'at':
                p = re.compile(_rx(o[1]) + '$')
                evs = [e for e in an.events if p.match(e.text)]
                if len(evs) < o[3] or (o[4] is not None and len(evs) > o[4]):
                    c.obl(self.f, '%s performs  %s  (%d found, expected at least %d)' % (self.name, o[1], len(evs), o[3]), False, o[5], None)
                for e in evs:
                    for cl in o[2]:
                        ok = holds(e.was, cl) or holds(e.cur, cl)
                        c.obl(self.f, 'in %s  "%s"  happens only after  %s' % (self.name, e.text[:160], cl), ok, o[5], None, line=e.line, file=e.file,
                              path=' && '.join(sem.fshow(x) for x in e.path))
            elif o[0] == 'did':
                p = re.compile('did ' + _rx(o[1]) + '$')
                cl = [(p, True)] + ([(norm_atom(a, t), pp) for a, pp, t in parse_clause(o[2])] if o[2] else [])
                ok = not dead and sem.entails(es.was, cl)
                c.obl(self.f, 'every normal return of %s has performed  %s%s' % (self.name, o[1], '  unless ' + o[2] if o[2] else ''), ok, o[3], None)
            elif o[0] == 'only':
                p = re.compile(_rx(o[1]) + '$')
                al = [re.compile(_rx(a) + '$') for a in o[2]]
                n = 0
                for e in an.events:
                    if p.match(e.text):
                        n += 1
                        ok = any(a.match(e.text) for a in al)
                        c.obl(self.f, 'in %s effect "%s" is one of the allowed ones for  %s' % (self.name, e.text[:200], o[1]), ok, o[3], None, line=e.line, file=e.file)
            elif o[0] == 'effects':
                # every lasting effect (state write or call with effects, not on a local object) is one of the listed ones
                al = [re.compile(_rx(a) + '$') for a in o[1]]
                n = 0
                for e in an.events:
                    if e.kind not in ('set', 'call') or LOCALEFF.match(e.text): continue
                    n += 1
                    c.obl(self.f, 'in %s effect "%s" is one of the %d listed ones' % (self.name, e.text[:200], len(al)), any(a.match(e.text) for a in al), o[2], None, line=e.line, file=e.file,
                          path=' && '.join(sem.fshow(x) for x in e.path)[:2000])
                if n == 0: c.obl(self.f, '%s has no lasting effect' % self.name, True, o[2], None)
            elif o[0] == 'rethrow':
                evs = [e for e in an.events if e.kind == 'throw' and any(a.startswith('#threw') for q in e.path for cl in sem.cnf(q) or [] for a, _ in cl)]
                ok = bool(evs) and all(holds(e.was, o[1]) for e in evs)
                c.obl(self.f, 'every exception %s passes on leaves with  %s' % (self.name, o[1]), ok, o[2], None, line=evs[0].line if evs else None, file=evs[0].file if evs else None)
            elif o[0] == 'raise':
                for e in an.events:
                    if e.kind != 'throw' or any(a.startswith('#threw') for q in e.path for cl in sem.cnf(q) or [] for a, _ in cl): continue
                    c.obl(self.f, '%s throws only in one of the %d listed situations (here: %s)' % (self.name, len(o[1]), e.text[:100]), self.raised(e, o[1]), o[2], None, line=e.line, file=e.file,
                          path=' && '.join(sem.fshow(x) for x in e.path))
            elif o[0] == 'each':
                p = re.compile(_rx(o[1]) + '$')
                evs = [e for e in an.events if p.match(e.text)]
                c.obl(self.f, '%s performs  %s  whenever  %s' % (self.name, o[1], ' && '.join(o[2]) or 'it gets there'), bool(evs) and self.covered(evs, o[2]), o[3], None,
                      line=evs[0].line if evs else None, file=evs[0].file if evs else None, path=' || '.join(' && '.join(sem.fshow(x) for x in e.path) for e in evs)[:2000])
            elif o[0] == 'value':
                p = re.compile(_rx(o[1]))
                ok = any(p.search(e.text) for e in an.events) or any(p.search(sem.fshow(x)) for e in an.events for x in e.path) or (not dead and es.env.get((1, 'ret')) is not None and bool(p.search(sem.show(es.env[(1, 'ret')]))))
                c.obl(self.f, '%s computes and uses  %s' % (self.name, o[1]), ok, o[2], None)
            elif o[0] == 'seq':
                got = sequence(an, o[1])
                want = [(x.split(' ?? ')[0], frozenset(y for y in x.split(' ?? ')[1].split(' && ')) if ' ?? ' in x else frozenset()) for x in o[2]]
                self.check_seq(o[1], got, want, o[3])
            elif o[0] == 'ret':
                al = [re.compile(_rx('return ' + a) + '$') for a in o[1]]
                evs = [e for e in an.events if e.kind == 'ret' and e.fn == self.name]
                for e in evs:
                    c.obl(self.f, '%s returns one of %s (here: %s)' % (self.name, list(o[1]), e.text[:200]), any(a.match(e.text) for a in al), o[2], None, line=e.line, file=e.file)
                for a, t in zip(al, o[1]):
                    c.obl(self.f, '%s has a return of  %s' % (self.name, t), any(a.match(e.text) for e in evs), o[2], None)
        return self
    def check_seq(self, sel, got, want, why):
        c = self.c
        free = list(range(len(got))); pos = []
        for t, cs in want:
            p, cp = re.compile(_rx(t) + '$'), [re.compile(('!' if x[0] == '!' else '') + re.escape('{') + _rx(x.lstrip('!')[1:-1]) + re.escape('}') + '$') if not ' | ' in x else re.compile(re.escape(x) + '$') for x in cs]
            m = next((i for i in free if p.match(got[i][0]) and len(got[i][1]) == len(cp) and all(any(q.match(g) for g in got[i][1]) for q in cp)), None)
            label = '%s performs  %s%s' % (self.name, t, '  exactly when ' + ' && '.join(sorted(cs)) if cs else '  always')
            if m is None:
                near = next((g for g in got if p.match(g[0])), None)
                c.obl(self.f, label, False, why or ('here: when ' + (' && '.join(sorted(near[1])) or 'always') if near else 'not found'), None, line=near[2].line if near else None, file=near[2].file if near else None)
                pos.append(None)
            else:
                free.remove(m); pos.append(m); c.obl(self.f, label, True)
        for i in free:
            c.obl(self.f, '%s performs nothing else of the kind %s' % (self.name, sel), False, why or got[i][0][:200], None, line=got[i][2].line, file=got[i][2].file)
        for i in range(len(want)):
            for j in range(i + 1, len(want)):
                if pos[i] is None or pos[j] is None: continue
                if any((x[1:] if x[0] == '!' else '!' + x) in want[j][1] for x in want[i][1]): continue
                if pos[i] > pos[j]:
                    c.obl(self.f, '%s performs  %s  before  %s' % (self.name, want[i][0], want[j][0]), False, why, None, line=got[pos[j]][2].line, file=got[pos[j]][2].file)
    def explain_exit(self):
        es = self.an.exit_state
        if es is None or es.dead: return 'the function has no normal return'
        return None

def sequence(an, select):
    """the effects matching select in program order, each with the conditions under which it happens"""
    p = re.compile(_rx(select) + '$')
    es = an.exit_state
    out = []
    for e in an.events:
        if e.kind not in ('call', 'set', 'pure', 'init') or not p.match(e.text): continue
        conds = set()
        for f in e.path:
            for c in sem.cnf(f) or []:
                if any('#' in a for a, q in c): continue
                if es is not None and not es.dead and c in es.was.s: continue
                conds.add(sem.cshow(c))
        out.append((e.text, frozenset(conds), e))
    return out

class Check:
    def __init__(self, pid, title=''):
        self.pid, self.title = pid, title
        self.fns, self.obls, self.viol, self.na = {}, [], [], []
        self.specs = []
        self.notes = []
        self.prog = None
        self.min_obl = 1
        self.extra = {}
        self.rules = []
    def load(self, *tus, **kw):
        if self.prog is None: self.prog = facts.load(list(tus), **kw)
        else: self.prog.more(tus, **kw)
        return self.prog
    def fn(self, name, sig=None, **kw):
        s = Fn(self, name, sig, **kw); self.specs.append(s); return s
    def rule(self, text): self.rules.append(text)
    def analysed(self, f, an=None):
        k = '%s%s' % (f['name'], f['sig'])
        self.fns[k] = {'file': f['file'], 'line': f['line'], 'events': len(an.events) if an else 0, 'inlined': sorted(an.inlined) if an else []}
    def obl(self, f, text, ok, why='', more=None, line=None, file=None, path=''):
        file = file or (f['file'] if f else ''); line = line or (f['line'] if f else 0)
        self.obls.append((text, ok))
        if not ok:
            m = more() if callable(more) else None
            self.viol.append({'function': f['name'] if f else '', 'file': file, 'line': line, 'obligation': text, 'why': why or '', 'path': path, 'more': m})
    def spec(self, *names):
        for name in names: self.spec_file(name)
    def spec_file(self, name):
        """reads obligations from props/<name>.spec"""
        cur = None
        path = os.path.join(facts.VERIF, 'props', name + '.spec')
        tus, lines = [], []
        for ln, line in enumerate(open(path), 1):
            line = line.strip()
            if not line or line.startswith('# ') or line == '#': continue
            if line.startswith('tus '): tus += line.split()[1:]
            else: lines.append((ln, line))
        if tus: self.load(*tus)
        for ln, line in lines:
            k, _, rest = line.partition(' ')
            if k == 'fn':
                p = rest.split(' ')
                kw = dict(x.split('=', 1) for x in p[1:])
                for m in ('inline', 'opaque'):
                    if m in kw: kw[m] = kw[m].split(',')
                cur = self.fn(p[0], **kw)
            elif k == 'exit': cur.exit(rest)
            elif k == 'rethrow': cur.rethrow(rest)
            elif k == 'raise': cur.raises(rest.split(' ;; '))
            elif k == 'each': p = rest.split(' ;; '); cur.each(p[0], *p[1:])
            elif k == 'value': cur.value(rest)
            elif k == 'true': cur.true(rest)
            elif k == 'false': cur.false(rest)
            elif k == 'at': p = rest.split(' ;; '); cur.at(p[0], *p[1:])
            elif k == 'never': p = rest.split(' ;; '); cur.at(p[0], *(p[1:] or ['{never}']), min=0)
            elif k == 'seq': p = rest.split(' ;; '); cur.seq(p[0], p[1:])
            elif k == 'effects': cur.effects(*[x for x in rest.split(' ;; ') if x and x != 'none'])
            elif k == 'only': p = rest.split(' ;; '); cur.only(p[0], *p[1:])
            else: raise ValueError('%s:%d: %s' % (path, ln, line))
    def run(self):
        for s in self.specs:
            # a function that cannot be decided does not hide what the others show
            try: s.run()
            except NoAnswer as e: self.na.append(str(e))
        self.specs = []
