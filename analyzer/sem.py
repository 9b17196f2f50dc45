"""Guard / effect analysis: an abstract interpreter over the extracted syntax trees.

It computes, for every program point, which conditions are established on every path reaching it (must-facts, kept
as clauses over canonical atoms), and which effects (calls, assignments, throws, returns) happen under which facts.
Locals are replaced by their defining expressions (flow-sensitive, ite() at joins, fold() for loop-carried values),
functions that are not part of the vocabulary of the rule are inlined, comparisons/boolean structure/commutative
operators/container idioms are normalised.  Nothing is executed and no solver is involved: a clause is entailed when
unit propagation over the recorded clauses yields it.
"""
import re, itertools
from facts import NoAnswer

MAXCLAUSE = 6
T, F = ('T',), ('F',)

# ------------------------------------------------------------------ formulas

def L(atom, pos=True): return ('L', atom, pos)
def Not(f):
    k = f[0]
    if k == 'T': return F
    if k == 'F': return T
    if k == 'L': return ('L', f[1], not f[2])
    if k == '&': return Or(*[Not(x) for x in f[1]])
    return And(*[Not(x) for x in f[1]])
def absorb(out, dual):
    """literals on their own decide the same literals inside the dual groups; None if nothing changes"""
    lits = {x for x in out if x[0] == 'L'}
    if not lits or len(lits) == len(out): return None
    res, ch = [], False
    for x in out:
        if x[0] == dual:
            if any(y in lits for y in x[1]): ch = True; continue
            keep = [y for y in x[1] if not (y[0] == 'L' and ('L', y[1], not y[2]) in lits)]
            if len(keep) < len(x[1]):
                ch = True
                x = (Or if dual == '|' else And)(*keep)
        res.append(x)
    return res if ch else None
_subj = {}
def subj(atom):
    """(subject, constant) of an equality with an integer or an enumerator: two of them with the same subject exclude each other"""
    r = _subj.get(atom, 0)
    if r == 0:
        r = None
        if atom.count(' == ') == 1:
            a, b = atom.split(' == ')
            ca, cb = _const.fullmatch(a), _const.fullmatch(b)
            if cb and not ca: r = (a, b)
            elif ca and not cb: r = (b, a)
            if r and (r[0].count('(') != r[0].count(')') or r[0].count('{') != r[0].count('}')): r = None
        _subj[atom] = r
    return r
_const = re.compile(r'-?\d+|(?:\w+::)+[A-Z][A-Z0-9_]*')
def excl(a, b):
    x, y = subj(a), subj(b)
    return x is not None and y is not None and x[0] == y[0] and x[1] != y[1] and ('::' in x[1]) == ('::' in y[1])
def exclusive(out, pos):
    """X == c1 decides X == c2: in a conjunction (pos) it contradicts the other equality and makes its negation redundant; dually for a disjunction"""
    e = [x for x in out if x[0] == 'L' and x[2] == pos and subj(x[1])]
    if not e: return out
    res = []
    for x in out:
        if x[0] == 'L' and subj(x[1]) and any(excl(x[1], y[1]) for y in e):
            if x[2] == pos: return None
            continue
        res.append(x)
    return res
def And(*fs):
    out = []
    for f in fs:
        if f[0] == 'T': continue
        if f[0] == 'F': return F
        for x in (f[1] if f[0] == '&' else (f,)):
            if x not in out: out.append(x)
    for x in out:
        if x[0] == 'L' and ('L', x[1], not x[2]) in out: return F
    out = exclusive(out, True)
    if out is None: return F
    r = absorb(out, '|')
    if r is not None: return And(*r)
    if not out: return T
    if len(out) == 1: return out[0]
    return ('&', tuple(out))
def Or(*fs):
    out = []
    for f in fs:
        if f[0] == 'F': continue
        if f[0] == 'T': return T
        for x in (f[1] if f[0] == '|' else (f,)):
            if x not in out: out.append(x)
    for x in out:
        if x[0] == 'L' and ('L', x[1], not x[2]) in out: return T
    out = exclusive(out, False)
    if out is None: return T
    r = absorb(out, '&')
    if r is not None: return Or(*r)
    if not out: return F
    if len(out) == 1: return out[0]
    return ('|', tuple(out))

def cnf(f, cap=24):
    """list of clauses (frozenset of (atom,pos)); None when too large"""
    k = f[0]
    if k == 'T': return []
    if k == 'F': return [frozenset()]
    if k == 'L': return [frozenset([(f[1], f[2])])]
    if k == '&':
        r = []
        for x in f[1]:
            c = cnf(x, cap)
            if c is None: return None
            for y in c:
                if y not in r: r.append(y)
            if len(r) > cap: return None
        return r
    r = [frozenset()]
    for x in f[1]:
        c = cnf(x, cap)
        if c is None: return None
        n = []
        for a in r:
            for b in c:
                u = a | b
                if any((t, not p) in u for t, p in u): continue
                if u not in n: n.append(u)
        r = n
        if len(r) > cap: return None
    return r

def primes(c):
    """all prime implicates of a small set of clauses: the same for every way to write the same condition"""
    s = set(c)
    while len(s) < 60:
        new = {(a - {(t, p)}) | (b - {(t, not p)}) for a in s for b in s for t, p in a if (t, not p) in b}
        new = {x for x in new if not any((t, not p) in x for t, p in x)} - s
        new = {x for x in new if not any(y <= x for y in s)}
        if not new: break
        s |= new
    return [x for x in s if not any(y < x for y in s)]

def fshow(f):
    k = f[0]
    if k == 'T': return 'true'
    if k == 'F': return 'false'
    if k == 'L': return ('' if f[2] else '!') + '{' + f[1] + '}'
    return '(' + (' && ' if k == '&' else ' || ').join(sorted(fshow(x) for x in f[1])) + ')'

def cshow(c):
    return ' | '.join(sorted(('' if p else '!') + '{' + a + '}' for a, p in c))

# ------------------------------------------------------------------ values

_show = {}
def show(v):
    r = _show.get(v)
    if r is None:
        r = _show[v] = _sh(v)
    return r
def _sh(v):
    k = v[0]
    if k == 'i': return str(v[1])
    if k == 's': return '"%s"' % v[1].replace('\\', '\\\\').replace('\n', '\\n').replace('\t', '\\t').replace('\r', '\\r')
    if k == 'v': return v[1]
    if k == 'm': return '@' + v[2] if v[1] == ('v', 'this') else show(v[1]) + '.' + v[2]
    if k == 'c': return v[1] + '(' + ', '.join(show(x) for x in v[2:]) + ')'
    if k == 'sum':
        parts = sorted(('' if c == 1 else '-' if c == -1 else '%d*' % c) + show(t) for t, c in v[2])
        if v[1]: parts.append(str(v[1]))
        return '(' + ' + '.join(parts) + ')'
    if k == 'op': return '(' + show(v[2]) + ' ' + v[1] + ' ' + show(v[3]) + ')'
    if k == 'nop': return '(' + (' %s ' % v[1]).join(sorted(show(x) for x in v[2:])) + ')'
    if k == 'f': return fshow(v[1])
    if k == 'ite': return 'ite(' + fshow(v[1]) + ', ' + show(v[2]) + ', ' + show(v[3]) + ')'
    if k == 'fold': return 'fold(' + show(v[1]) + ', ' + show(v[2]) + (', ' + show(v[3]) if len(v) > 3 and v[3] is not None else '') + ')'
    if k == 'lam': return 'lambda'
    return repr(v)

NULL = ('i', 0)
TRUE, FALSE = ('f', T), ('f', F)

def sym(n): return ('v', n)
def app(f, *a): return ('c', f) + tuple(a)

def add(a, b, neg=False):
    const, terms = 0, {}
    for v, s in ((a, 1), (b, -1 if neg else 1)):
        if v[0] == 'i': const += s * v[1]
        elif v[0] == 'sum':
            const += s * v[1]
            for t, c in v[2]: terms[t] = terms.get(t, 0) + s * c
        else: terms[v] = terms.get(v, 0) + s
    tl = tuple(sorted(((t, c) for t, c in terms.items() if c), key=lambda x: show(x[0])))
    if not tl: return ('i', const)
    if const == 0 and len(tl) == 1 and tl[0][1] == 1: return tl[0][0]
    return ('sum', const, tl)

def nary(op, a, b):
    xs = []
    for v in (a, b):
        if v[0] == 'nop' and v[1] == op: xs += v[2:]
        else: xs.append(v)
    ints = [x[1] for x in xs if x[0] == 'i']
    rest = [x for x in xs if x[0] != 'i']
    if len(ints) > 1 or (ints and not rest):
        r = ints[0]
        for i in ints[1:]: r = r * i if op == '*' else r & i if op == '&' else r | i if op == '|' else r ^ i
        ints = [r]
    if op == '*' and ints == [0]: return ('i', 0)
    if op == '*' and ints == [1] and rest: ints = []
    xs = sorted(rest + [('i', i) for i in ints], key=show)
    if len(xs) == 1: return xs[0]
    return ('nop', op) + tuple(xs)

def binop(op, a, b):
    if a[0] == 'ite' and b[0] == 'i' and op in ('+', '-') : pass
    if op == '+':
        if a[0] == 's' or b[0] == 's': return ('op', op, a, b)
        return add(a, b)
    if op == '-': return add(a, b, True)
    if op in ('*', '&', '|', '^'): return nary(op, a, b)
    if a[0] == 'i' and b[0] == 'i':
        try:
            if op == '/': return ('i', int(a[1] / b[1]) if a[1] < 0 else a[1] // b[1])
            if op == '%': return ('i', a[1] % b[1])
            if op == '<<': return ('i', a[1] << b[1])
            if op == '>>': return ('i', a[1] >> b[1])
        except Exception: pass
    return ('op', op, a, b)

def truth(v):
    """formula for 'v is true / non-zero / non-null'"""
    k = v[0]
    if k == 'f': return v[1]
    if k == 'i': return F if v[1] == 0 else T
    if k == 's': return T
    if k == 'ite': return Or(And(v[1], truth(v[2])), And(Not(v[1]), truth(v[3])))
    if k == 'c':
        if v[1] == 'find' and len(v) > 3 and v[3][0] == 's': return L(show(v))    # position of a text, not a lookup
        if v[1] == 'find': return L(show(app('has', v[2], v[3]))) if len(v) > 3 else L(show(v))
        if v[1] in ('make_shared', 'new', 'current_exception', 'create', 'lambda', 'addr'): return T
        if v[1] == 'maybe' and truth(v[2]) == T: return T
        if v[1] == 'size': return Not(truth(app('empty', v[2])))
        if v[1] == 'count' and len(v) == 4: return L(show(app('has', v[2], v[3])))
        if v[1] in ('bool', 'as'): return truth(v[-1]) if v[1] == 'bool' else L(show(v))
    if k == 'fold':
        # monotone flag:  fold(init, ite(c, TRUE, ~))  ==  init || c (for some iteration)
        s = v[2]
        if s[0] == 'ite':
            if s[3] == ('v', '~'): return Or(truth(v[1]), And(s[1], truth(s[2]))) if truth(s[2]) == T else (And(truth(v[1]), Not(s[1])) if truth(s[2]) == F else L(show(v)))
            if s[2] == ('v', '~'): return Or(truth(v[1]), Not(s[1])) if truth(s[3]) == T else (And(truth(v[1]), s[1]) if truth(s[3]) == F else L(show(v)))
        if s[0] == 'f' and s[1][0] in ('&', '|'):
            me = L('~')
            if me in s[1][1]:
                rest = [x for x in s[1][1] if x != me]
                return And(truth(v[1]), *rest) if s[1][0] == '&' else Or(truth(v[1]), *rest)
    if k == 'v' and v[1].startswith(('%shared_ptr', '%unique_ptr')): return T
    return L(show(v))

def eq(a, b):
    if a == b: return T
    if a[0] == 'i' and b[0] == 'i': return T if a[1] == b[1] else F
    if b[0] in ('i', 'f') and a[0] not in ('i', 'f'): a, b = b, a
    if a == ('i', 0): return Not(truth(b))
    if a[0] == 'f' or b[0] == 'f':
        x, y = truth(a), truth(b)
        if x == T: return y
        if x == F: return Not(y)
        if y == T: return x
        if y == F: return Not(x)
        return Or(And(x, y), And(Not(x), Not(y)))
    for x, y in ((a, b), (b, a)):
        if x[0] == 'c' and x[1] == 'find' and y[0] == 'c' and y[1] in ('end', 'cend') and x[2] == y[2] and len(x) == 4:
            return L(show(app('has', x[2], x[3])), False)
        if x[0] == 'c' and x[1] == 'find_if' and y[0] == 'c' and y[1] in ('end', 'cend') and x[2] == y[2]: return Not(x[3][1])
        if x[0] == 'c' and x[1] in ('begin', 'cbegin') and y[0] == 'c' and y[1] in ('end', 'cend') and x[2] == y[2]:
            return truth(app('empty', x[2]))
        if x[0] == 'ite' and (y[0] in ('i', 's') or (y[0] == 'v' and '::' in y[1])):
            e1, e2 = eq(x[2], y), eq(x[3], y)
            return Or(And(x[1], e1), And(Not(x[1]), e2))
        if x[0] == 'c' and x[1] == 'size' and y == ('i', 0): return truth(app('empty', x[2]))
    r = split_ite(a, b, eq)
    if r is not None: return r
    if '::' in show(a) and '::' in show(b) and a[0] == 'v' and b[0] == 'v' and a[1].rsplit('::', 1)[0] == b[1].rsplit('::', 1)[0] and a[1] != b[1] and a[1][0].isalpha() and b[1][0].isalpha():
        return F
    sa, sb = show(a), show(b)
    if sb < sa: sa, sb = sb, sa
    return L('%s == %s' % (sa, sb))

def split_ite(a, b, rel):
    """a relation on a conditional value is decided case by case"""
    for i, x in ((0, a), (1, b)):
        if x[0] == 'ite':
            p, q = (rel(x[2], b), rel(x[3], b)) if i == 0 else (rel(a, x[2]), rel(a, x[3]))
            f = Or(And(x[1], p), And(Not(x[1]), q))
            n, m = cnf(f, 10), cnf(Not(f), 10)
            if n is not None and m is not None: return f
            return None
    return None

def lt(a, b, unsigned=True):
    if a == b: return F
    if a[0] == 'ite' or b[0] == 'ite':
        r = split_ite(a, b, lambda x, y: lt(x, y, unsigned))
        if r is not None: return r
    if a[0] == 'i' and b[0] == 'i': return T if a[1] < b[1] else F
    if unsigned:
        if a == ('i', 0): return truth(b)
        if b == ('i', 0): return F
        if b == ('i', 1): return Not(truth(a))
    # size comparisons against constants: (n < x) with n const is (n+1 <= x); keep as is
    # x < n + 1  ==  !(n < x)
    if b[0] == 'i' and a[0] != 'i':
        return Not(lt(('i', b[1] - 1), a, unsigned))
    return L('%s < %s' % (show(a), show(b)))

def mkite(c, a, b):
    if a == b or c == T: return a
    if c == F: return b
    if a[0] == 'f' and b[0] == 'f': return ('f', Or(And(c, a[1]), And(Not(c), b[1])))
    if a[0] == 'sum' or b[0] == 'sum':
        # ite(c, x + y, x)  ==  x + ite(c, y, 0)
        ta, tb = (dict(v[2]) if v[0] == 'sum' else {v: 1} if v[0] != 'i' else {} for v in (a, b))
        com = tuple(sorted(((t, k) for t, k in ta.items() if tb.get(t) == k), key=lambda x: show(x[0])))
        if com:
            base = ('sum', 0, com) if len(com) > 1 or com[0][1] != 1 else com[0][0]
            return add(base, mkite(c, add(a, base, True), add(b, base, True)))
    # one case distinction instead of two nested ones with a common outcome
    if b[0] == 'ite':
        if b[3] == a: return mkite(And(Not(c), b[1]), b[2], a)
        if b[2] == a: return mkite(Or(c, b[1]), a, b[3])
    if a[0] == 'ite':
        if a[3] == b: return mkite(And(c, a[1]), a[2], b)
        if a[2] == b: return mkite(And(c, Not(a[1])), a[3], b)
    # orient: positive first literal
    if c[0] == 'L' and not c[2]: return mkite(Not(c), b, a)
    # the order of tests that exclude each other does not matter
    if c[0] == 'L' and b[0] == 'ite' and b[1][0] == 'L' and b[1][2] and b[1][1] < c[1] and excl(c[1], b[1][1]):
        return mkite(b[1], b[2], mkite(c, a, b[3]))
    if c[0] in '&|':
        s1, s2 = fshow(c), fshow(Not(c))
        if s2 < s1: return ('ite', Not(c), b, a)
    return ('ite', c, a, b)

# ------------------------------------------------------------------ clause sets

class Facts:
    """set of clauses with lazy unit propagation"""
    __slots__ = ('s',)
    def __init__(self, s=()): self.s = frozenset(s)
    def assume(self, f):
        c = cnf(f)
        if c is None:
            if f[0] == '&':
                r = self
                for x in f[1]: r = r.assume(x)
                return r
            return self
        return Facts(self.s | {x for x in c if len(x) <= MAXCLAUSE})
    def join(self, o, cond):
        common = self.s & o.s
        a, b = self.s - common, o.s - common
        r = set(common)
        pos, neg = cnf(cond), cnf(Not(cond))
        if pos is None or neg is None or len(pos) > 5 or len(neg) > 5:
            p = fresh('p')
            pos, neg = [frozenset([(p, True)])], [frozenset([(p, False)])]
        for fs, gs in ((a, neg), (b, pos)):
            for f in fs:
                for g in gs:
                    u = f | g
                    if len(u) > MAXCLAUSE: continue
                    if any((t, not p) in u for t, p in u): continue
                    r.add(u)
        return Facts(r)
    def kill(self, text):
        return Facts(c for c in self.s if not any(text in a for a, p in c))
    def __contains__(self, c): return c in self.s

_fresh = [0]
def fresh(p): _fresh[0] += 1; return '#%s%d' % (p, _fresh[0])

def propagate(clauses, assumed=()):
    """unit propagation; returns (set of unit literals, conflict?)"""
    units = set(assumed)
    for l in units:
        if (l[0], not l[1]) in units: return units, True
    work = [set(c) for c in clauses]
    grp = {}
    for a in {l[0] for c in work for l in c} | {l[0] for l in units}:
        x = subj(a)
        if x: grp.setdefault(x[0], set()).add(a)
    if any(len(g) > 1 for g in grp.values()):
        for a, p in list(units):
            if p and subj(a):
                for b in grp[subj(a)[0]]:
                    if excl(a, b):
                        if (b, True) in units: return units, True
                        units.add((b, False))
    changed = True
    while changed:
        changed = False
        rest = []
        for c in work:
            if any(l in units for l in c): continue
            n = {l for l in c if (l[0], not l[1]) not in units}
            if not n: return units, True
            if len(n) == 1:
                l = next(iter(n)); units.add(l); changed = True
                if l[1] and subj(l[0]):
                    for b in grp[subj(l[0])[0]]:
                        if excl(l[0], b):
                            if (b, True) in units: return units, True
                            units.add((b, False))
            else: rest.append(n)
        work = rest
    return units, False

def flat_and(fs):
    r = []
    for f in fs: r += flat_and(f[1]) if f[0] == '&' else [f]
    return r

class State:
    __slots__ = ('env', 'mem', 'was', 'cur', 'path', 'dead')
    def __init__(self):
        self.env, self.mem, self.was, self.cur, self.path, self.dead = {}, {}, Facts(), Facts(), (), False
    def copy(self):
        n = State.__new__(State)
        n.env, n.mem, n.was, n.cur, n.path, n.dead = dict(self.env), dict(self.mem), self.was, self.cur, self.path, self.dead
        return n
    def assume(self, f, path=True):
        n = self.copy()
        if f == F: n.dead = True; return n
        n.was = n.was.assume(f); n.cur = n.cur.assume(f)
        if path and f != T: n.path = n.path + (f,)
        return n
    def fact(self, atom):
        c = frozenset([(atom, True)])
        self.was = Facts(self.was.s | {c}); self.cur = Facts(self.cur.s | {c})

def join(a, b, cond, path=None):
    if a is None or a.dead: r = b.copy() if b is not None else None; return r
    if b is None or b.dead: return a.copy()
    n = State()
    n.was, n.cur = a.was.join(b.was, cond), a.cur.join(b.cur, cond)
    for k in a.env.keys() | b.env.keys():
        x, y = a.env.get(k), b.env.get(k)
        if x is None or y is None: n.env[k] = x or y
        elif x == y: n.env[k] = x
        elif x[0] == 'alias' or y[0] == 'alias': n.env[k] = x
        else: n.env[k] = mkite(cond, x, y)
    for k in a.mem.keys() & b.mem.keys():
        x, y = a.mem[k], b.mem[k]
        n.mem[k] = x if x == y else mkite(cond, x, y)
    if path is not None: n.path = path
    else:
        i = 0
        while i < len(a.path) and i < len(b.path) and a.path[i] == b.path[i]: i += 1
        n.path = a.path[:i]
    return n

class Event:
    __slots__ = ('kind', 'text', 'fn', 'file', 'line', 'was', 'cur', 'path', 'args', 'val')
    def __init__(s, kind, text, fn, line, st, args=(), val=None):
        s.kind, s.text, s.fn, s.file, s.line = kind, text, fn['name'], fn['file'], line
        s.was, s.cur, s.path, s.args, s.val = st.was, st.cur, st.path, args, val
    def where(s): return '%s:%d (%s)' % (s.file, s.line, s.fn)

MUTATORS = {'insert', 'emplace', 'erase', 'clear', 'push_back', 'emplace_back', 'pop_back', 'resize', 'emplace_front', 'push_front', 'pop_front', 'push', 'pop', 'swap', 'assign', 'reset', 'insert_or_assign', 'try_emplace', 'emplace_hint', 'append', 'reserve'}
TRANSPARENT_CTOR = re.compile(r'^(const )?(js::var|mmx::(uint128|fixed128)|uint128_t|uint256_t|uint128|vnx::(optional|Hash64)|std::(shared_ptr|unique_ptr|function|basic_string|__cxx11::basic_string|atomic|reference_wrapper|basic_string_view|optional)|mmx::\w+_e\b|mmx::(hash_t|addr_t|pubkey_t|signature_t)$)')
def bits_of(v):
    """An upper bound of the number of bits of a value known to be non-negative, else a large number."""
    if v[0] == 'i': return v[1].bit_length() if v[1] >= 0 else 999
    if v[0] == 'c' and v[1] in ('u8', 'u16', 'u32'): return int(v[1][1:])
    if v[0] == 'nop' and v[1] in '|^': return max(bits_of(x) for x in v[2:])
    if v[0] == 'nop' and v[1] == '&': return min(bits_of(x) for x in v[2:])
    if v[0] == 'nop' and v[1] == '*': return sum(bits_of(x) for x in v[2:])
    return 999
INTRANK = {'unsigned char': 8, 'signed char': 8, 'char': 8, 'unsigned short': 16, 'short': 16, 'unsigned int': 32, 'int': 32, 'unsigned long': 64, 'long': 64, 'unsigned long long': 64, 'long long': 64, 'bool': 1, 'uint128_t': 128, 'mmx::uint128': 128, 'uint256_t': 256, 'js::var': 256, 'unsigned __int128': 128}
def bare(t):
    t = t.replace('const ', '').replace('&', '').strip()
    return t
SHORTINT = {'unsigned char': 'u8', 'signed char': 'i8', 'char': 'i8', 'unsigned short': 'u16', 'short': 'i16', 'unsigned int': 'u32', 'int': 'i32', 'unsigned long': 'u64', 'long': 'i64', 'bool': 'bool', 'uint128_t': 'u128', 'mmx::uint128': 'u128', 'double': 'f64', 'float': 'f32'}
def short(n):
    n = re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', n))))
    return n.rsplit('::', 1)[-1] if not n.startswith('operator') else n
def cls2(n):
    p = n.split('::'); return '::'.join(p[-2:])
TS = re.compile(r'(std::|__cxx11::|mmx::|vnx::|const |, std::allocator<.*)')
def tshort(t):
    t = bare(t)
    t = re.sub(r'\b(std|mmx|vnx|__cxx11)::', '', t)
    t = re.sub(r', (allocator|less|hash|equal_to)<[^<>]*(<[^<>]*(<[^<>]*(<[^<>]*>)?[^<>]*>)?[^<>]*>)?[^<>]*>', '', t)
    t = t.replace('basic_string<char, char_traits<char>>', 'string').replace('basic_string<char, char_traits<char> >', 'string').replace('const ', '')
    return t.replace(' ', '')

VALUE_TYPES = {'hash_t', 'addr_t', 'pubkey_t', 'signature_t', 'string', 'Hash64', 'var_t*', 'varptr_t', 'optional<bool>', 'skey_t', 'seed_t'}
NOISE = re.compile(r'^(vnx::(LogStream|log_\w+)|.*::log$|std::(chrono|to_string|setprecision|cout|cerr|endl)|vnx::Module::log)')

class Analysis:
    """one run over one entry function"""
    def __init__(self, prog, opaque=(), inline=(), base_vocab=frozenset(), max_depth=9, roots=None):
        self.prog, self.opaque, self.inline, self.vocab, self.max_depth = prog, set(opaque), set(inline), base_vocab, max_depth
        self.events = []
        self.quiet = 0
        self.stack = []
        self.nframes = 0
        self.frames = {}
        self.reftgt = {}
        self.refkeys = set()
        self.handlers = []
        self.exits = []
        self.inlined = set()
        self.did = None       # compiled regex of events to be remembered as facts
        self.nstmt = 0

    # ---------------- entry
    def run(self, fn, this='this', args=None, did=None):
        self.did = re.compile(did) if did else None
        self.fn = fn
        st = State()
        fr = self.new_frame(fn, sym(this) if isinstance(this, str) else this)
        for i, p in enumerate(fn['params']):
            st.env[(fr, p[2])] = args[i] if args and i < len(args) and args[i] is not None else sym('$%d' % i)
        self.ctor_inits(fn, fr, st)
        out = self.body(fn, fr, st)
        if out is not None and not out.dead and out.env.get((1, 'ret')) is not None and not out.env[(1, 'ret')][0] == 'f':
            out.was = out.was.assume(L('ret = ' + show(out.env[(1, 'ret')])))
            self.outcomes('ret', out.env[(1, 'ret')], out)
        if out is not None and not out.dead:
            for i, q in enumerate(fn['params']):
                v = out.env.get((1, q[2]))
                if q[4].endswith('&') and not q[4].startswith('const ') and v is not None and v != sym('$%d' % i) and v[0] not in ('alias', 'lam'):
                    out.was = out.was.assume(L('out $%d = %s' % (i, show(v))))
                    self.outcomes('out $%d' % i, v, out)
        self.exit_state = out
        return self

    def ctor_inits(self, fn, fr, st):
        for name, init in fn.get('inits', ()):
            if init is None: continue
            v, st2 = self.ev(init, fr, st)
            st.env, st.mem, st.was, st.cur = st2.env, st2.mem, st2.was, st2.cur
            self.event('init', '@%s := %s' % (name, show(v)), init[1], fr, st)

    def new_frame(self, fn, this):
        self.nframes += 1
        self.frames[self.nframes] = (fn, this)
        return self.nframes

    def body(self, fn, fr, st):
        """runs a function body; returns joined exit state with env[(fr,'ret')] set"""
        self.stack.append(fn['name'] + fn['sig'])
        depth = len(st.path)
        saved = self.exits; self.exits = []
        hs = self.handlers; self.handlers = []
        hsave = hs
        self.handlers = hs
        end = self.st(fn['body'], fr, st, {})
        rets = self.exits; self.exits = saved
        if end is not None and not end.dead: rets.append((None, end))
        self.stack.pop()
        if not rets: 
            d = st.copy(); d.dead = True; d.env[(fr, 'ret')] = sym('?'); return d
        for v, s in rets: s.env[(fr, 'ret')] = v if v is not None else sym('void')
        # fold returns: earlier ones first, path condition relative to the entry
        if fr == 1: self.final = [(v, s.copy()) for v, s in rets]
        res = rets[-1][1]
        seen, conds = set(), []
        for v, s in rets[:-1]:
            # drop conjuncts that merely exclude earlier returns
            c = And(*[x for x in flat_and(s.path[depth:]) if x not in seen]) if len(s.path) > depth else L(fresh('r'))
            conds.append(c)
            seen.update(flat_and([Not(c)]))
        # among the paths that do return, only what tells this return from the later ones matters
        flats = [set(flat_and(s.path[depth:])) for _, s in rets]
        for i in range(len(conds)):
            cs = [x for x in flat_and([conds[i]])]
            def apart(cs):
                have = set(cs)
                return all(any(set(flat_and([Not(x)])) <= fl for x in cs) or any(set(flat_and([Not(y)])) <= have for y in fl) for fl in flats[i + 1:])
            if len(cs) > 1 and apart(cs):
                for x in reversed(list(cs)):
                    rest = [y for y in cs if y is not x]
                    if rest and apart(rest): cs = rest
                conds[i] = And(*cs)
        for (v, s), c in zip(reversed(rets[:-1]), reversed(conds)):
            res = join(s, res, c, path=st.path)
        res.path = st.path
        # reduce nested ite conditions
        if (fr, 'ret') in res.env: res.env[(fr, 'ret')] = simplify(res.env[(fr, 'ret')])
        return res

    def outcomes(self, what, v, st):
        """a result chosen by several conditions: one implication per outcome"""
        def leaves(v, c, n):
            if v[0] == 'ite' and n < 6:
                leaves(v[2], And(c, v[1]), n + 1); leaves(v[3], And(c, Not(v[1])), n + 1)
            elif n and c != F:
                st.was = st.was.assume(Or(L(what + ' = ' + show(v)), Not(c)))
        leaves(v, T, 0)

    def retfact(self, v, st):
        def leaves(v, conds):
            if v[0] == 'ite':
                leaves(v[2], conds + [v[1]]); leaves(v[3], conds + [Not(v[1])])
            else:
                f = Or(L('ret = ' + show(v)), *[Not(c) for c in conds])
                st.was = st.was.assume(f)
        leaves(v, [])

    # ---------------- events
    def event(self, kind, text, line, fr, st, args=(), val=None):
        if self.quiet: 
            if self.did and self.did.search(text): st.fact('did ' + text)
            return
        e = Event(kind, text, self.frames[fr][0], line, st, args, val)
        self.events.append(e)
        if self.did and self.did.search(text): st.fact('did ' + text)

    # ---------------- statements;  returns state or None when control does not continue
    # ctl: dict with 'brk': list, 'cont': list
    def st(self, s, fr, st, ctl):
        if s is None: return st
        if st is None or st.dead: return None
        self.nstmt += 1
        k = s[0]
        if k == 'block':
            for x in s[2]:
                st = self.st(x, fr, st, ctl)
                if st is None or st.dead: return None
            return st
        if k == 'expr':
            _, st = self.ev(s[2], fr, st)
            return None if st.dead else st
        if k == 'decl':
            for d in s[2]:
                st = self.decl(d, fr, st)
                if st.dead: return None
            return st
        if k == 'if':
            if s[2]: st = self.st(s[2], fr, st, ctl)
            if s[3]: st = self.decl(s[3], fr, st)
            f, st = self.cond(s[4], fr, st)
            if st.dead: return None
            t, e = st.assume(f), st.assume(Not(f))
            path = st.path
            t = self.st(s[5], fr, t, ctl) if not t.dead else None
            e = (self.st(s[6], fr, e, ctl) if s[6] else e) if not e.dead else None
            if t is None and e is None: return None
            if t is None: return e
            if e is None: return t
            return join(t, e, f, path)
        if k in ('for', 'while', 'do', 'rfor'): return self.loop(s, fr, st, ctl)
        if k == 'switch': return self.switch(s, fr, st, ctl)
        if k == 'ret':
            v = None
            if s[2] is not None: v, st = self.ev(s[2], fr, st)
            if st.dead: return None
            if v is not None and v[0] == 'v' and v[1].startswith('%'): v = self.untouched(v, s[2], fr)
            if fr == 1 and not self.inlam:
                st = st.copy(); self.retfact(v if v is not None else sym('void'), st)
            self.event('ret', 'return ' + (show(v) if v else ''), s[1], fr, st, val=v)
            over = ctl.get('loop') or ctl.get('around')
            if over: self.event('break', 'break(%s)' % over, s[1], fr, st)
            self.exits.append((v, st.copy()))
            return None
        if k == 'break':
            if 'loop' in ctl: self.event('break', 'break(%s)' % ctl['loop'], s[1], fr, st)
            ctl['brk'].append(st.copy()); return None
        if k == 'cont': ctl['cont'].append(st.copy()); return None
        if k == 'try': return self.trystmt(s, fr, st, ctl)
        if k == 'nop': return st
        if k == 'label': return self.st(s[3], fr, st, ctl)
        if k in ('case', 'default'): return self.st(s[-1], fr, st, ctl)
        if k == 'goto': raise NoAnswer('goto in %s' % self.frames[fr][0]['name'])
        if k == 'sx': return st
        raise NoAnswer('statement kind ' + k)

    def decl(self, d, fr, st):
        if d[0] == 'dd':
            v, st = self.ev(d[4], fr, st) if d[4] else (sym('?'), st)
            st = st.copy()
            for i, (bid, name) in enumerate(d[3]): st.env[(fr, bid)] = ('m', v, ('first', 'second', 'third', 'fourth')[i] if i < 4 else str(i))
            return st
        _, line, vid, name, ty, init, static = d
        key = (fr, vid)
        if init is None:
            st = st.copy(); st.env[key] = self.newobj(ty, name); return st
        isref = ty.endswith('&') or ty.endswith('*')
        if init[0] == 'lambda':
            st = st.copy(); st.env[key] = ('lam', id(init), fr); self.lams[id(init)] = init
            for c in init[3]:
                if c[5]: v, st = self.ev(c[5], fr, st); st.env[(fr, c[2])] = v
            return st
        if isref:
            lv = self.lval(init, fr, st)
            if lv and lv[0] == 'var':
                st = st.copy(); st.env[key] = ('alias', lv[1]); return st
        v, st = self.ev(init, fr, st)
        st = st.copy()
        if not isref and v[0] == 'c' and v[1] == 'pair' and len(v) == 4 and 'pair<' in ty and self.member_assigned(fr, vid):
            # a pair whose members are assigned later is an object
            n = '%m' + tshort(ty) + ':' + name
            self.objinit[n] = v; st.env[key] = sym(n)
            self.event('newobj', '%s := %s' % (n, show(v)), line, fr, st)
            if self.member_assigned(fr, vid) == 'once':
                st.mem[n + '.first'] = v[2]; st.mem[n + '.second'] = v[3]
            return st
        if not isref and (init[0] == 'ctor' and not init[3]) or (init[0] == 'init' and not init[3]):
            v0, v = v, self.newobj(ty, name)
            if v0[0] == 'c' and v[0] == 'v': self.decl0[key] = (v, v0)
        elif not isref and self.is_obj_type(ty) and v[0] == 'c' and v[1] in ('ctor', 'init', 'new', 'create'):
            v0, v = v, self.newobj2(ty, name, v)
            if v[0] == 'v' and v[1].startswith('%'): self.decl0[key] = (v, v0)
        elif not isref and self.is_obj_type(ty) and not ty.startswith('const ') and v[0] in ('m', 'c', 'v') and not TRANSPARENT_CTOR.match(ty) and not ty.startswith('std::_') and 'iterator' not in ty:
            # a mutable copy of an object: fresh identity, initialised by the source
            o = self.newobj(ty, name, v); st.env[key] = v if not self.mutated(name) else o; return st
        t = bare(ty)
        st.env[key] = v
        if ty.endswith('&') and not ty.startswith('const ') and v[0] in ('m', 'c'): self.reftgt[key] = v
        if isinstance(v, tuple) and v[0] == 'v' and v[1].startswith('%'): self.event('newobj', '%s := %s' % (v[1], show(self.objinit.get(v[1], sym('')))), line, fr, st)
        return st
    def member_assigned(self, fr, vid):
        out, w = False, [(self.frames[fr][0]['body'], False)]
        while w:
            x, loop = w.pop()
            if not isinstance(x, (list, tuple)) or not x: continue
            if isinstance(x[0], str):
                loop = loop or x[0] in ('for', 'while', 'do', 'rfor')
                lv = None
                if x[0] == 'asg' or x[0] == 'un' and x[2] in ('++', '--', 'post++', 'post--'): lv = strip(x[3])
                elif x[0] == 'op' and x[3] and (x[2].endswith('=') and x[2] not in ('==', '!=', '<=', '>=') or x[2] in ('++', '--')): lv = strip(x[3][0])
                if lv and lv[0] == 'mem' and strip(lv[2])[0] == 'var' and strip(lv[2])[2] == vid: out = 'loop' if loop or out == 'loop' else 'once'
                if lv and lv[0] == 'var' and lv[2] == vid: return False
            w.extend((y, loop) for y in x)
        return out
    inlam = 0
    lams = {}
    objinit = {}
    reftgt = {}
    def newobj2(self, ty, name, v):
        if v[1] in ('new', 'create') or tshort(ty).startswith(('shared_ptr', 'unique_ptr')):
            if v[1] == 'ctor': return v
            n = '%' + tshort(ty) + ':' + name
            self.objinit[n] = v
            return sym(n)
        return self.newobj(ty, name, v)
    def mutated(self, name): return False
    def untouched(self, v, e, fr):
        """a returned local object that is declared and never used before: the value it was declared with"""
        e = strip(e)
        while e[0] == 'ctor' and len(e[3]) == 1: e = strip(e[3][0])
        d = self.decl0.get((fr, e[2])) if e[0] == 'var' else None
        if d is None or d[0] != v: return v
        n, w = 0, [self.frames[fr][0]['body']]
        while w:
            x = w.pop()
            if isinstance(x, (list, tuple)):
                if len(x) > 2 and x[0] == 'var' and x[2] == e[2]: n += 1
                w.extend(x)
        return d[1] if n == 1 else v
    decl0 = {}
    def is_obj_type(self, ty): return not (bare(ty) in INTRANK or bare(ty) in SHORTINT or ty.endswith('*'))
    def newobj(self, ty, name, init=None):
        t = bare(ty)
        if t in INTRANK: return ('i', 0) if '128' in t and '__int128' not in t or '256' in t else sym('undef')
        if t.startswith(('std::shared_ptr', 'std::unique_ptr', 'vnx::optional', 'std::exception_ptr', 'std::__exception_ptr')): return NULL
        if t in ('mmx::uint128', 'uint128_t', 'uint256_t', 'js::var', 'mmx::fixed128'): return NULL
        ts = tshort(ty)
        if ts in VALUE_TYPES: return app('ctor', sym(ts)) if init is None else init
        n = '%' + ts + ':' + name
        if init is not None: self.objinit[n] = init
        return sym(n)

    def assigned(self, node, fr, st, acc, seen):
        """ids of variables assigned inside node (transitively through local lambdas)"""
        if isinstance(node, (list, tuple)):
            if node and isinstance(node[0], str):
                k = node[0]
                if k in ('asg', 'un') and (k == 'asg' or node[2] in ('++', '--', 'post++', 'post--')):
                    lv = node[3]
                    while isinstance(lv, list) and lv[0] in ('cast', 'icast'): lv = lv[-1]
                    if lv[0] == 'var': acc.add(self.resolve((fr, lv[2]), st))
                if k == 'op' and (node[2].endswith('=') and node[2] not in ('==', '!=', '<=', '>=') or node[2] in ('++', '--')) and node[3] and node[3][0][0] == 'var':
                    acc.add(self.resolve((fr, node[3][0][2]), st))
                if k == 'var':
                    v = st.env.get(self.resolve((fr, node[2]), st))
                    if v is not None and v[0] == 'lam' and v[1] not in seen:
                        seen.add(v[1]); self.assigned(self.lams[v[1]][4], v[2], st, acc, seen)
                if k == 'call':
                    # by-reference arguments of scalar locals
                    sig = node[3]
                    for a, t in zip(node[5] or (), split_sig(sig)):
                        if t.endswith('&') and not t.startswith('const ') and a[0] == 'var' : acc.add(self.resolve((fr, a[2]), st))
                        a = strip(a)
                        if t.endswith('*') and not t.startswith('const ') and a[0] == 'un' and a[2] == '&' and strip(a[3])[0] == 'var': acc.add(self.resolve((fr, strip(a[3])[2]), st))
                    b = node[4]
                    if node[2].startswith('std::') and short(node[2]) in VALMUT and b is not None and b[0] == 'var':
                        key = self.resolve((fr, b[2]), st); v = st.env.get(key)
                        if v is not None and v[0] in ('c', 'op', 'ite', 'i', 's') and not (v[0] == 'c' and v[1] in REFVAL) and not self.isref(key): acc.add(key)
            for x in node: 
                if isinstance(x, (list, tuple)): self.assigned(x, fr, st, acc, seen)

    def resolve(self, key, st):
        v = st.env.get(key)
        while v is not None and v[0] == 'alias':
            key = v[1]; v = st.env.get(key)
        return key

    # ---------------- loops
    def same_loop(self, s, fr, st):
        """one shape for the ways to write where a loop ends: while(true) { if(x) break; .. } is while(!x) { .. },
        and for(i..; i < n && x; ..) { .. } is for(i..; i < n; ..) { if(!x) break; .. }"""
        k = s[0]
        neg = lambda e: strip(e)[3] if strip(e)[0] == 'un' and strip(e)[2] == '!' else ('un', e[1], '!', e)
        def first_break(b):
            while b and b[0] == 'block' and len(b[2]) and b[2][0] and b[2][0][0] == 'block': b = b[2][0] if len(b[2]) == 1 else None
            if not b or b[0] != 'block' or not b[2]: return None
            x = b[2][0]
            if not x or x[0] != 'if' or x[2] or x[3] or x[6]: return None
            t = x[5]
            while t and t[0] == 'block' and len(t[2]) == 1: t = t[2][0]
            return (x[4], ('block', b[1], list(b[2][1:]))) if t and t[0] == 'break' else None
        ci, bi = 3, 5 if k == 'for' else 4
        if k in ('for', 'while') and (s[ci] is None or self.cond_const(s[ci], fr, st)) and not (k == 'while' and s[2]):
            fb = first_break(s[bi])
            if fb:
                s = list(s); s[ci] = neg(fb[0]); s[bi] = fb[1]; s = tuple(s)
        if k == 'for' and s[3] is not None:
            c = strip(s[3]); parts = []
            while c[0] in ('bin', 'op') and c[2] == '&&':
                l, r = (c[3], c[4]) if c[0] == 'bin' else (c[3][0], c[3][1])
                parts.insert(0, r); c = strip(l)
            vid = s[2][2][0][2] if s[2] and s[2][0] == 'decl' and s[2][2] and s[2][2][0][0] == 'vd' else None
            def names(e): return isinstance(e, (list, tuple)) and (len(e) > 2 and e[0] == 'var' and e[2] == vid or any(names(x) for x in e))
            if parts and not any(names(x) for x in parts):
                t = list(s); t[3] = c
                for x in reversed(parts): t[5] = ('block', s[1], [('if', s[1], None, None, neg(x), ('break', s[1]), None), t[5]])
                if self.index_loop(tuple(t), fr, st)[0]: s = tuple(t)
        if k in ('for', 'while') and s[ci] is not None and not (k == 'while' and s[2]) and not (k == 'for' and self.index_loop(s, fr, st)[0]):
            fb = first_break(s[bi])
            if fb:
                s = list(s); s[ci] = ('bin', s[1], '&&', s[ci], neg(fb[0])); s[bi] = fb[1]; s = tuple(s)
        return s
    def cond_const(self, c, fr, st):
        c = strip(c)
        return c[0] in ('int', 'bool', 'lit') and self.cond(c, fr, st.copy())[0] == T
    def loop(self, s, fr, st, ctl):
        k = s[0]
        st = st.copy()
        if k == 'for' and s[2]:
            st = self.st(s[2], fr, st, ctl)
            if st is None: return None
        s = self.same_loop(s, fr, st)
        body = s[5] if k == 'for' else s[4] if k in ('while', 'rfor') else s[2]
        condn = s[3] if k == 'for' else s[3] if k == 'while' else s[3] if k == 'do' else None
        inc = s[4] if k == 'for' else None
        rng = None
        idxvar = None
        cnt = None            # how often the body runs, for the folds over it
        iter_skip = set()
        if k == 'rfor':
            rng, st = self.ev(s[3], fr, st); st = st.copy()
            cnt = rng
            el = app('elem', rng)
            if s[2][0] == 'dd':
                for i, (bid, _) in enumerate(s[2][3]): st.env[(fr, bid)] = ('m', el, ('first', 'second', 'third')[i])
            else:
                st.env[(fr, s[2][2])] = el
                if s[2][4].endswith('&') and not s[2][4].startswith('const '): self.reftgt[(fr, s[2][2])] = el
                iter_skip.add((fr, s[2][2]))
        elif k == 'for' and condn is not None:
            idxvar, bound, vec = self.index_loop(s, fr, st)
            if idxvar:
                st.env[idxvar] = bound
                iter_skip.add(idxvar)
                if vec is not None: rng = vec
                cnt = bound[2] if len(bound) == 3 else add(bound[2], bound[3], True)
        acc = set()
        for part in (body, inc, condn) + ((s[2],) if k == 'while' and s[2] else ()):
            if part is not None: self.assigned(part, fr, st, acc, set())
        acc = {a for a in acc if a in st.env and a not in iter_skip and not (st.env[a][0] == 'v' and st.env[a][1].startswith('%') and not st.env[a][1].startswith('%shared_ptr'))}
        acc = sorted(acc, key=lambda a: (show(st.env[a]) if st.env[a][0] not in ('lam', 'alias') else '', a))
        init = {a: st.env[a] for a in acc}
        memkeys0 = dict(st.mem)
        # pass 1: symbolic placeholders
        p1 = st.copy()
        for i, a in enumerate(acc): p1.env[a] = sym('~%d' % i)
        # unknown conditions of one iteration keep their name, so that what a fold says about them can be used afterwards
        f0 = _fresh[0]
        self.quiet += 1
        ex = self.exits; self.exits = []
        ev_end = self.iteration(k, s, body, condn, inc, fr, p1, skip_inc=idxvar is not None)[0]
        self.exits = ex
        self.quiet -= 1
        f1 = _fresh[0]; _fresh[0] = f0
        p2 = st.copy()
        widx, totals = {}, {}
        if k in ('while', 'for') and condn is not None and idxvar is None:
            cf, _ = self.cond(condn, fr, p1) if not (k == 'while' and s[2]) else (T, None)
            if cf[0] == 'L':
                for i, a in enumerate(acc):
                    if init[a] == ('i', 0) and ev_end is not None and ev_end.env.get(a) == add(sym('~%d' % i), ('i', 1)):
                        n = self.cmp_rhs(condn, fr, p1)
                        if n is not None and ('~' not in show(n) or n == self.cmp_rhs(condn, fr, st.copy())) and cf in (lt(sym('~%d' % i), n), Not(eq(sym('~%d' % i), n))):
                            if True:
                                widx[a] = app('idx', n[2]) if n[0] == 'c' and n[1] == 'size' else app('idx', n)
                                if n[0] == 'c' and n[1] == 'size': rng = n[2]
                                cnt = widx[a][2]
        if widx:
            # the counter is now known to be an index: fold the other variables over that
            for a in widx: p1.env[a] = widx[a]
            _fresh[0] = f0; self.quiet += 1; ex = self.exits; self.exits = []
            ev_end = self.iteration(k, s, body, condn, inc, fr, p1, skip_inc=False)[0]
            self.exits = ex; self.quiet -= 1
            f1 = max(f1, _fresh[0]); _fresh[0] = f0
        if k in ('while', 'for') and condn is not None and cnt is None and ev_end is not None and not (k == 'while' and s[2]):
            # counting down
            cf, _ = self.cond(condn, fr, p1)
            for i, a in enumerate(acc):
                if cf in (L('~%d' % i), L('0 < ~%d' % i)) and ev_end.env.get(a) == add(sym('~%d' % i), ('i', -1)): cnt = init[a]
                elif cf[0] == 'L' and ev_end.env.get(a) == add(sym('~%d' % i), ('i', 1)):
                    n = self.cmp_rhs(condn, fr, p1)
                    if n is not None and ('~' not in show(n) or n == self.cmp_rhs(condn, fr, st.copy())) and cf == lt(sym('~%d' % i), n): cnt = add(n, init[a], True)
        for i, a in enumerate(acc):
            if a in widx: p2.env[a] = widx[a]; continue
            ph = sym('~%d' % i)
            end = ev_end.env.get(a, ph) if ev_end is not None and not ev_end.dead else ph
            if end == ph: continue
            p2.env[a] = ('fold', init[a], rename_ph(end, i), cnt)
            if rng is not None and s[0] != 'do':
                t = additive(end, ph)
                if t is not None: totals[a] = add(init[a], total(rng, t))
        if ev_end is not None and not ev_end.dead:
            for m in list(p2.mem):
                if ev_end.mem.get(m) != p2.mem[m]: del p2.mem[m]
        before = p2.copy()
        p2_env = dict(p2.env)
        end, exit_st, brks = self.iteration(k, s, body, condn, inc, fr, p2, skip_inc=idxvar is not None, over=show(rng) if rng is not None else 'loop')
        _fresh[0] = max(_fresh[0], f1)
        # normal exit: facts before the loop plus the facts of every completed iteration
        out = before.copy()
        if k == 'do':
            out = end.copy() if end is not None and not end.dead else None
            if out is not None:
                f, out = self.cond(condn, fr, out)
                out = out.assume(Not(f), path=False)
        else:
            if end is not None and not end.dead:
                rtxt = show(rng) if rng is not None else None
                again = set()      # the condition holds in every iteration but not afterwards, when the loop variables have their last value
                if k in ('while', 'for') and condn is not None and not idxvar:
                    self.quiet += 1; f0 = _fresh[0]
                    f, _ = self.cond(condn, fr, before)
                    self.quiet -= 1; _fresh[0] = f0
                    again = {l for c in cnf(f) or [] for l in c} | {l for c in cnf(Not(f)) or [] for l in c}
                for which in ('was', 'cur'):
                    base, e = getattr(out, which), getattr(end, which)
                    new = set()
                    for c in e.s - base.s:
                        if len(c) <= len(again) and c <= again: continue
                        txt = [a for a, p in c]
                        if any('elem(' in a or 'idx(' in a or 'fold(' in a for a in txt): new.add(c)
                        elif rtxt is not None: 
                            if len(c) < MAXCLAUSE: new.add(c | {('empty(%s)' % rtxt, True)})
                    setattr(out, which, Facts(base.s | new))
                for m in list(out.mem):
                    if end.mem.get(m) != out.mem[m]: del out.mem[m]
            if exit_st is not None and k in ('while', 'for') and condn is not None and not idxvar:
                f, o2 = self.cond(condn, fr, out)
                if not o2.dead: out = o2.assume(Not(f), path=False)
            elif condn is None and k in ('while', 'for'):
                out = None
            elif k == 'while' and condn is not None:
                f, o2 = self.cond(condn, fr, out)
                if f == T: out = None
        if out is not None and not brks:
            for a, v in totals.items():
                if out.env.get(a) == p2_env[a]: out.env[a] = v
        # breaks
        depth = len(before.path)
        for b in brks:
            c = And(*b.path[depth:]) if len(b.path) > depth else L(fresh('b'))
            if out is None: out = b
            else: out = join(b, out, c, before.path)
        if out is not None: out.path = before.path
        return out

    def cmp_rhs(self, c, fr, st):
        c = strip(c)
        if c[0] == 'bin' and c[2] in ('<', '!='): return self.ev(c[4], fr, st)[0]
        if c[0] == 'bin' and c[2] == '>': return self.ev(c[3], fr, st)[0]
        if c[0] == 'op' and c[2] in ('<', '!=') and len(c[3]) == 2 and 'js::' in c[5]: return self.ev(c[3][1], fr, st)[0]
        return None
    def index_loop(self, s, fr, st):
        """for(T i = 0; i < N; ++i)   or   for(auto it = c.begin(); it != c.end(); ++it)"""
        i, c, inc = s[2], s[3], s[4]
        none = (None, None, None)
        if not i or i[0] != 'decl' or len(i[2]) < 1 or i[2][0][0] != 'vd': return none
        vid = i[2][0][2]; key = (fr, vid)
        if key not in st.env: return none
        if inc is None: return none
        if inc[0] == 'un' and inc[2] in ('++', 'post++') and inc[3][0] == 'var' and inc[3][2] == vid: pass
        elif inc[0] == 'op' and inc[2] == '++' and inc[3][0][0] == 'var' and inc[3][0][2] == vid: pass
        else: return none
        acc = set(); self.assigned(s[5], fr, st, acc, set())
        if key in acc: return none
        init = st.env[key]
        cc = c
        if cc[0] == 'op' and cc[2] == '<' and len(cc[3]) == 2 and 'js::' in cc[5] and init == ('i', 0): cc = ('bin', cc[1], '<', cc[3][0], cc[3][1])
        if cc[0] == 'bin' and cc[2] in ('<', '!=') and strip(cc[3])[0] == 'var' and strip(cc[3])[2] == vid:
            n, _ = self.ev(cc[4], fr, st)
            if init[0] == 'c' and init[1] in ('begin', 'cbegin') and n[0] == 'c' and n[1] in ('end', 'cend') and init[2] == n[2]:
                return key, app('iter', init[2]), init[2]
            if init == ('i', 0):
                if n[0] == 'c' and n[1] == 'size': return key, app('idx', n[2]), n[2]
                return key, app('idx', n), None
            if init[0] == 'i' or cc[0] == 'bin' and not has_ph(init) and not (init[0] == 'c' and init[1] in ('begin', 'cbegin', 'rbegin', 'find', 'lower_bound')): return key, app('idx', n, init), None
            return none
        if cc[0] == 'op' and cc[2] == '!=' and len(cc[3]) == 2 and strip(cc[3][0])[0] == 'var' and strip(cc[3][0])[2] == vid:
            n, _ = self.ev(cc[3][1], fr, st)
            if init[0] == 'c' and init[1] in ('begin', 'cbegin') and n[0] == 'c' and n[1] in ('end', 'cend') and init[2] == n[2]:
                return key, app('iter', init[2]), init[2]
        return none

    def iteration(self, k, s, body, condn, inc, fr, st, skip_inc=False, over=''):
        """one abstract iteration: (state at iteration end, state when the condition fails, break states)"""
        c2 = {'brk': [], 'cont': [], 'loop': over}
        exit_st = None
        if k in ('while', 'for') and condn is not None:
            if k == 'while' and s[2]: st = self.decl(s[2], fr, st)
            f, st = self.cond(condn, fr, st)
            if not skip_inc or True:
                exit_st = st.assume(Not(f), path=False)
                if not skip_inc: st = st.assume(f)
        end = self.st(body, fr, st, c2) if not st.dead else None
        depth = len(st.path)
        for c in reversed(c2['cont']):
            cnd = And(*c.path[depth:]) if len(c.path) > depth else L(fresh('c'))
            end = join(c, end, cnd, st.path) if end is not None else c
        if end is not None: end.path = st.path
        if inc is not None and end is not None and not end.dead and not skip_inc:
            _, end = self.ev(inc, fr, end)
        if k == 'do' and False: pass
        return end, exit_st, c2['brk']

    # ---------------- switch
    def switch(self, s, fr, st, ctl):
        if s[2]: st = self.st(s[2], fr, st, ctl)
        if s[3]: st = self.decl(s[3], fr, st)
        v, st = self.ev(s[4], fr, st)
        body = s[5][2] if s[5] and s[5][0] == 'block' else [s[5]]
        # flatten case labels
        segs = []   # (labels, [stmts])
        def push(x):
            if x[0] == 'case':
                if not segs or segs[-1][1]: segs.append(([], []))
                segs[-1][0].append(x[2]); 
                if x[4]: push(x[4])
            elif x[0] == 'default':
                if not segs or segs[-1][1]: segs.append(([], []))
                segs[-1][0].append(None)
                if x[2]: push(x[2])
            else:
                if not segs: segs.append(([], []))
                segs[-1][1].append(x)
        for x in body: push(x)
        labels = []
        for ls, _ in segs:
            for l in ls:
                if l is not None: lv, _x = self.ev(l, fr, st); labels.append(eq(v, lv))
        anyl = Or(*labels) if labels else F
        path = st.path
        c2 = {'brk': [], 'cont': ctl.get('cont', []), 'around': ctl.get('loop') or ctl.get('around')}
        out = []      # (cond, state)
        fall = None
        hasdef = False
        for ls, stmts in segs:
            conds = []
            for l in ls:
                if l is None: hasdef = True; conds.append(And(*[Not(x) for x in labels]))
                else: lv, _x = self.ev(l, fr, st); conds.append(eq(v, lv))
            cnd = Or(*conds)
            e = st.assume(cnd)
            if fall is not None: e = join(fall, e, L(fresh('ft')), e.path)
            nb = len(c2['brk'])
            for x in stmts:
                e = self.st(x, fr, e, c2)
                if e is None or e.dead: e = None; break
            for b in c2['brk'][nb:]: out.append((cnd, b))
            fall = e
        if fall is not None: out.append((T, fall))
        if not hasdef:
            out.append((And(*[Not(x) for x in labels]), st.assume(And(*[Not(x) for x in labels]))))
        # n-way join
        if not out: return None
        res = out[-1][1]
        for c, b in reversed(out[:-1]):
            if c in (T, F): c = L(fresh('sw'))
            res = join(b, res, c, path)
        res.path = path
        return res

    # ---------------- try
    def trystmt(self, s, fr, st, ctl):
        entry = st
        self.handlers.append([])
        end = self.st(s[2], fr, st.copy(), ctl)
        thrown = self.handlers.pop()
        acc = set(); self.assigned(s[2], fr, st, acc, set())
        res = None; conds = []
        hs = []
        for h in s[3]:
            e = entry.copy()
            p = fresh('threw')
            for a in acc:
                v = e.env.get(a)
                if v is not None and v[0] not in ('lam', 'alias') and not (v[0] == 'v' and v[1].startswith('%') and not v[1].startswith(('%shared_ptr', '%unique_ptr'))): e.env[a] = app('maybe', v)
            e = e.assume(L(p))
            if h[3]: e.env[(fr, h[3][2])] = app('caught', sym(tshort(h[2])))
            self.event('catch', 'catch ' + h[2], h[1], fr, e)
            e = self.st(h[4], fr, e, ctl)
            hs.append((L(p), e))
        if end is not None:
            for p, _ in hs: end = end.assume(Not(p), path=False)
        res = end
        for p, e in hs:
            if e is None or e.dead: continue
            res = join(e, res, p, st.path) if res is not None else e
        if res is not None: res.path = st.path
        return res

    # ---------------- conditions
    def cond(self, e, fr, st):
        e0 = e
        k = e[0]
        if k == 'bin' and e[2] in ('&&', '||'):
            a, st = self.cond(e[3], fr, st)
            if st.dead: return a, st
            s1 = st.assume(a if e[2] == '&&' else Not(a))
            if s1.dead: return a, st
            b, s2 = self.cond(e[4], fr, s1)
            st = join(s2, st.assume(Not(a) if e[2] == '&&' else a), a if e[2] == '&&' else Not(a), st.path) if s2 is not s1 and self.changed(s1, s2) else st
            return (And(a, b) if e[2] == '&&' else Or(a, b)), st
        if k == 'un' and e[2] == '!':
            a, st = self.cond(e[3], fr, st)
            return Not(a), st
        if k == 'op' and e[2] == '!' and len(e[3]) == 1:
            a, st = self.cond(e[3][0], fr, st)
            return Not(a), st
        v, st = self.ev(e, fr, st)
        return truth(v), st
    def changed(self, a, b):
        return a.env != b.env or a.was.s != b.was.s or a.mem != b.mem

    # ---------------- lvalues
    def lval(self, e, fr, st):
        e = strip(e)
        if e[0] == 'var': 
            key = self.resolve((fr, e[2]), st)
            v = st.env.get(key)
            if v is not None and v[0] in ('lam',): return None
            return ('var', key)
        return None

    def store(self, target, val, op, line, fr, st):
        """assignment to an lvalue expression; returns state"""
        e = strip(target)
        if e[0] == 'cond':
            return st
        if e[0] == 'un' and e[2] == '*' and strip(e[3])[0] == 'var':
            pass
        if e[0] == 'var':
            key = self.resolve((fr, e[2]), st)
            old = st.env.get(key)
            # reference variables bound to memory
            if old is not None and old[0] in ('m', 'c') and self.isref(key):
                return self.memstore(old, val, op, line, fr, st)
            st = st.copy()
            if key in self.reftgt:
                # a local reference: the object it refers to changes
                txt = show(self.reftgt[key])
                st.cur = st.cur.kill(txt)
                self.event('set', '%s %s %s' % (txt, op, show(val)), line, fr, st, (self.reftgt[key], val))
                for m in [m for m in st.mem if m == txt or m.startswith(txt + '.')]: del st.mem[m]
                st.env[key] = val
                return st
            if old is not None and old[0] == 'v' and old[1].startswith('%'):
                self.event('set', '%s %s %s' % (old[1], op, show(val)), line, fr, st, (old, val))
                for m in [m for m in st.mem if m.startswith(old[1] + '.')]: del st.mem[m]
                if not old[1].startswith(('%shared_ptr', '%unique_ptr')): return st
            st.env[key] = val
            return st
        lv, st = self.ev(e, fr, st, want_lv=True)
        return self.memstore(lv, val, op, line, fr, st)
    refkeys = set()
    def isref(self, key): return key in self.refkeys
    def objval(self, v): return v
    def memstore(self, lv, val, op, line, fr, st):
        st = st.copy()
        txt = show(lv)
        st.cur = st.cur.kill(txt)
        self.event('set', '%s %s %s' % (txt, op, show(val)), line, fr, st, (lv, val))
        if val[0] == 'lam' and ('lam', val[1]) not in self.stack:
            # a stored lambda may run at any time, so nothing that holds now may be assumed inside: only the effects are recorded
            self.run_callback(val, st, line)
        for m in [m for m in st.mem if m == txt or m.startswith(txt + '.')]: del st.mem[m]
        if op == '=' and (txt.startswith('%') or txt.startswith('new(') or txt.startswith('@')) and 'elem(' not in txt and 'at(' not in txt:
            st.mem[txt] = val
        return st

    # ---------------- expressions;  returns (value, state)
    def ev(self, e, fr, st, want_lv=False):
        if e is None: return sym('void'), st
        k = e[0]
        m = getattr(self, 'e_' + k, None)
        if m: return m(e, fr, st) if k not in ('mem', 'idx', 'op') else m(e, fr, st, want_lv)
        if k == 'int': return (TRUE if e[2] == 'true' else FALSE if e[2] == 'false' else ('i', int(e[2]))), st
        if k == 'flt': return sym(e[2]), st
        if k == 'null': return NULL, st
        if k == 'str': return ('s', e[2]), st
        if k == 'this': return self.frames[fr][1], st
        if k == 'enum': return sym(cls2(e[2])), st
        if k == 'glob': return sym('npos') if e[2].endswith('::npos') else sym(short(e[2]) if not e[2].startswith('std::') else e[2]), st
        if k == 'fref': return sym('&' + short(e[2])), st
        if k in ('sizeof', 'typeid', 'dref'): return sym(k + ':' + (e[2] if len(e) > 2 else '')), st
        if k == 'throw':
            v, st = self.ev(e[2], fr, st)
            self.event('throw', 'throw ' + (show(v[2]) if v[0] == 'c' and v[1] == 'ctor' else show(v)), e[1], fr, st, val=v)
            st = st.copy(); st.dead = True
            return sym('never'), st
        if k == 'delete':
            v, st = self.ev(e[2], fr, st); return sym('void'), st
        if k == 'x':
            vs = []
            for c in e[3]: v, st = self.ev(c, fr, st); vs.append(v)
            return app('x:' + e[2], *vs), st
        if k == 'stmtexpr': return sym('?'), st
        raise NoAnswer('expression kind ' + k)

    def e_var(self, e, fr, st):
        key = self.resolve((fr, e[2]), st)
        v = st.env.get(key)
        if v is None: v = sym('?' + e[3])
        if v[0] == 'ite': v = self.simp(v, st)
        return v, st
    def simp(self, v, st):
        while v[0] == 'ite':
            t = known(v[1], st.cur.s)
            if t is None: return v
            v = v[2] if t else v[3]
        return v

    def e_mem(self, e, fr, st, want_lv=False):
        b, st = self.ev(e[2], fr, st)
        if e[3] == '': return b, st
        v = self.member(b, e[3])
        if not want_lv:
            t = show(v)
            if t in st.mem: return st.mem[t], st
        return v, st
    def member(self, b, f):
        if b[0] == 'c' and b[1] == 'iter': b = app('elem', b[2])
        if b[0] == 'c' and b[1] in ('find', 'lower_bound') and len(b) == 4:
            if f == 'second': return app('at', b[2], b[3])
            if f == 'first' and b[1] == 'find': return b[3]
        if b[0] == 'c' and b[1] in ('insert', 'emplace') :
            if f == 'second': return ('f', L('inserted(%s)' % ', '.join(show(x) for x in b[2:])))
        if b[0] == 'c' and b[1] == 'pair' and len(b) == 4 and f in ('first', 'second'): return b[2] if f == 'first' else b[3]
        if b[0] == 'ite':
            if b[3] == NULL: return self.member(b[2], f)
            if b[2] == NULL: return self.member(b[3], f)
        if b[0] == 'ite' and f in ('first', 'second'): return mkite(b[1], self.member(b[2], f), self.member(b[3], f))
        return ('m', b, f)
    def e_dmem(self, e, fr, st):
        b, st = self.ev(e[2], fr, st) if e[2] else (self.frames[fr][1], st)
        return ('m', b, e[3]), st

    def e_idx(self, e, fr, st, want_lv=False):
        a, st = self.ev(e[2], fr, st)
        i, st = self.ev(e[3], fr, st)
        v = self.index(a, i)
        if not want_lv and show(v) in st.mem: return st.mem[show(v)], st
        return v, st
    def index(self, a, i):
        if i[0] == 'c' and i[1] == 'idx' and len(i) == 3 and i[2] == a: return app('elem', a)
        return app('at', a, i)

    def e_icast(self, e, fr, st):
        v, st = self.ev(e[4], fr, st)
        return self.conv(v, e[2], e[3]), st
    def e_cast(self, e, fr, st):
        v, st = self.ev(e[4], fr, st)
        if 'shared_ptr' in e[2] or e[2].endswith('&') or e[2].endswith('*'):
            return v, st
        return self.conv(v, e[2], e[3]), st
    def conv(self, v, to, frm):
        a, b = bare(to), bare(frm)
        if v[0] == 'i':
            if a == 'bool': return ('f', T if v[1] else F)
            r = INTRANK.get(a)
            if r and r <= 64 and a.startswith('unsigned'): return ('i', v[1] & ((1 << r) - 1))
            if a in ('double', 'float'): return ('i', v[1])
            return v
        if a == 'bool': return ('f', truth(v))
        if a == 'void' or (a == b and a in ('double', 'float')): return v
        ra, rb = INTRANK.get(a), INTRANK.get(b)
        if ra and rb and 32 <= rb < ra and ra >= 64 and v[0] in ('sum', 'nop', 'op') and is_arith(v): return app('w%d' % ra, v)
        if a in SHORTINT and (rb is None or ra is None or ra < rb or (a in ('double', 'float')) != (b in ('double', 'float'))):
            if b.startswith('mmx::') and b.endswith('_e') : return v
            if 'enum' in b: return v
            if ra and ra <= 64 and not a.startswith(('signed', 'int', 'char', 'short', 'long')) and bits_of(v) <= ra: return v
            return app(SHORTINT[a], v)
        return v
    def e_conv(self, e, fr, st):
        v, st = self.ev(e[3], fr, st)
        t = bare(e[2])
        if t == 'bool': return ('f', truth(v)), st
        if t in SHORTINT and INTRANK.get(t, 64) < 64: return app(SHORTINT[t], v), st
        return v, st

    def e_bin(self, e, fr, st):
        op = e[2]
        if op in ('&&', '||'):
            f, st = self.cond(e, fr, st); return ('f', f), st
        if op == ',':
            _, st = self.ev(e[3], fr, st); return self.ev(e[4], fr, st)
        a, st = self.ev(e[3], fr, st)
        b, st = self.ev(e[4], fr, st)
        return self.arith(op, a, b, e[6] if len(e) > 6 else ''), st
    def arith(self, op, a, b, lt_type=''):
        uns = not (bare(lt_type) in ('int', 'long', 'short', 'long long', 'double', 'float', 'signed char', 'char'))
        if op == '==': return ('f', eq(a, b))
        if op == '!=': return ('f', Not(eq(a, b)))
        if op == '<': return ('f', lt(a, b, uns))
        if op == '>': return ('f', lt(b, a, uns))
        if op == '<=': return ('f', Not(lt(b, a, uns)))
        if op == '>=': return ('f', Not(lt(a, b, uns)))
        if bare(lt_type) in UNSIGNED and b[0] == 'i':
            if op == '>>': op, b = '/', ('i', 1 << b[1])
            elif op == '&' and b[1] & (b[1] + 1) == 0 and b[1] > 0: op, b = '%', ('i', b[1] + 1)
        if op == '<<' and b[0] == 'i' and 0 <= b[1] < 512: op, b = '*', ('i', 1 << b[1])
        return binop(op, a, b)

    def e_un(self, e, fr, st):
        op = e[2]
        if op == '!':
            f, st = self.cond(e[3], fr, st); return ('f', Not(f)), st
        if op in ('++', '--', 'post++', 'post--'):
            old, st = self.ev(e[3], fr, st)
            new = add(old, ('i', 1), '--' in op)
            st = self.store(e[3], new, '=', e[1], fr, st)
            return (old if op.startswith('post') else new), st
        v, st = self.ev(e[3], fr, st)
        if op == '*':
            if v[0] == 'c' and v[1] == 'iter': return app('elem', v[2]), st
            return v, st
        if op in ('&', '+', '__extension__'): return v, st
        if op == '-':
            return add(('i', 0), v, True), st
        if op == '~': return app('~', v), st
        return app(op, v), st

    def e_asg(self, e, fr, st):
        op = e[2]
        v, st = self.ev(e[4], fr, st)
        if op == '=':
            if strip(e[4])[0] == 'lambda' and v[0] != 'lam': pass
            st = self.store(e[3], v, '=', e[1], fr, st)
            return v, st
        tgt = strip(e[3])
        old, st = self.ev(e[3], fr, st)
        if tgt[0] == 'var' and not (old[0] in ('m', 'c') and self.isref(self.resolve((fr, tgt[2]), st))):
            new = self.conv(self.arith(op[:-1], old, v, e[5]), e[5], e[6] if len(e) > 6 else e[5])
            st = self.store(e[3], new, '=', e[1], fr, st)
            return new, st
        new = self.arith(op[:-1], old, v, e[5])
        if len(e) > 6: new = self.conv(new, e[5], e[6])
        st = self.store(e[3], new, '=', e[1], fr, st)
        return new, st

    def e_cond(self, e, fr, st):
        f, st = self.cond(e[2], fr, st)
        a, s1 = self.ev(e[3], fr, st.assume(f))
        b, s2 = self.ev(e[4], fr, st.assume(Not(f)))
        if s1.dead and s2.dead: return a, s1
        if s1.dead: return b, s2
        if s2.dead: return a, s1
        return mkite(f, a, b), join(s1, s2, f, st.path)

    def e_lambda(self, e, fr, st):
        self.lams[id(e)] = e
        return ('lam', id(e), fr), st

    def e_init(self, e, fr, st):
        vs = []
        for c in e[3]: v, st = self.ev(c, fr, st); vs.append(v)
        if len(vs) == 1 and (bare(e[2]) in INTRANK or TRANSPARENT_CTOR.match(bare(e[2]))): return vs[0], st
        return app('init', sym(tshort(e[2])), *vs), st

    def e_ctor(self, e, fr, st):
        t = bare(e[2])
        vs = []
        for c in e[3]: v, st = self.ev(c, fr, st); vs.append(v)
        if not vs:
            if t in INTRANK or TRANSPARENT_CTOR.match(t) and not t.startswith(('mmx::hash', 'mmx::addr', 'mmx::pubkey', 'mmx::sig', 'std::basic')): return NULL, st
            return app('ctor', sym(tshort(t))), st
        if len(vs) == 1 and TRANSPARENT_CTOR.match(t):
            if t == 'mmx::hash_t' and re.search(r'array|bytes_t', e[4]): return app('ctor', sym('hash_t'), *vs), st
            if t in ('mmx::hash_t', 'mmx::addr_t', 'mmx::pubkey_t', 'mmx::signature_t') and ('basic_string' in e[4] or 'vector' in e[4] or 'void *' in e[4]) : return app('ctor', sym(tshort(t)), *vs), st
            if INTRANK.get(t, 0) > 64 and is_arith(vs[0]):
                ps = split_sig(e[4])
                if ps and INTRANK.get(bare(ps[0]), 999) <= 64: return app('w128', vs[0]), st
            return vs[0], st
        if t in ('mmx::hash_t', 'mmx::addr_t') and vs: return app('ctor', sym(tshort(t)), *vs), st
        if t.startswith('std::pair<') and len(vs) == 2: return app('pair', *vs), st
        if t.startswith('std::pair<') and len(vs) == 1: return vs[0], st
        if t.startswith(('std::_', '__gnu_cxx')) and len(vs) == 1: return vs[0], st
        if 'iterator' in t and len(vs) == 1: return vs[0], st
        for i, v in enumerate(vs):
            if v[0] == 'lam' and not t.startswith('std::thread'): return vs[i], st
        # lock guards and other named effects are calls
        n = tshort(t)
        if n.startswith(('lock_guard', 'unique_lock', 'shared_lock', 'scoped_lock')):
            n = n.split('<')[0]
            if len(vs) == 1 and n in ('unique_lock', 'scoped_lock'): n = 'lock_guard'  # interchangeable for one mutex
            if not self.quiet or True: self.event('call', '%s(%s)' % (n, ', '.join(show(x) for x in vs)), e[1], fr, st, tuple(vs))
            return app(n, *vs), st
        if n == 'string':
            ws = [x for x in vs if not (x[0] == 'c' and x[1] == 'ctor' and 'allocator' in show(x))]
            if len(ws) == 1 and re.match(r'"[^"]*"$', show(ws[0])): return ws[0], st
        c = self.find_ctor(t, e[4])
        if not re.search(r'(error|failure|exception|invalid_solution|argument|denied)$', n) and n != 'string':
            self.event('call', 'ctor:%s(%s)' % (n, ', '.join(show(x) for x in vs)), e[1], fr, st, tuple(vs))
        return app('ctor', sym(n), *[x for x in vs if not (x[0] == 'c' and x[1] == 'ctor' and 'allocator' in show(x))]), st
    def find_ctor(self, t, sig): return None

    def e_new(self, e, fr, st):
        vs = []
        for c in e[3]:
            v, st = self.ev(c, fr, st); vs.append(v)
        return app('new', sym(tshort(e[2])), *[x for x in vs if not (x[0] == 'c' and x[1] == 'ctor' and len(x) == 3)]), st

    def e_op(self, e, fr, st, want_lv=False):
        op, args, callee, sig = e[2], e[3], e[4], e[5]
        if op == '()':
            return self.callx(e[1], args[0], args[1:], fr, st, callee, sig)
        if op == '=':
            v, st = self.ev(args[1], fr, st)
            st = self.store(args[0], v, '=', e[1], fr, st)
            return v, st
        if op in ('+=', '-=', '*=', '/=', '|=', '&=', '^=', '<<=', '>>=', '%='):
            v, st = self.ev(args[1], fr, st)
            tgt = strip(args[0])
            old, st = self.ev(args[0], fr, st)
            if tgt[0] == 'var' and not (old[0] in ('m', 'c') and self.isref(self.resolve((fr, tgt[2]), st))):
                new = cat(old, v) if concat(e[6]) else self.warith(op[:-1], old, v, e)
                return new, self.store(args[0], new, '=', e[1], fr, st)
            new = cat(old, v) if concat(e[6]) else self.warith(op[:-1], old, v, e)
            return new, self.store(args[0], new, '=', e[1], fr, st)
        if op in ('<<', '>>') and ('stream' in callee.lower() or 'stream' in e[6].lower() or 'Log' in e[6] or 'Log' in callee):
            for a in args: _, st = self.ev(a, fr, st)
            return sym('stream'), st
        vs = []
        for a in args: v, st = self.ev(a, fr, st); vs.append(v)
        if op == '->' or (op == '*' and len(vs) == 1):
            if vs[0][0] == 'c' and vs[0][1] == 'iter': return app('elem', vs[0][2]), st
            return vs[0], st
        if op == '[]':
            v = self.index(vs[0], vs[1])
            if not want_lv and show(v) in st.mem: return st.mem[show(v)], st
            return v, st
        if op == '!' : return ('f', Not(truth(vs[0]))), st
        if op in ('++', '--'):
            new = add(vs[0], ('i', 1), op == '--')
            return (new if len(vs) == 1 else vs[0]), self.store(args[0], new, '=', e[1], fr, st)
        if len(vs) == 1 and op == '-': return add(('i', 0), vs[0], True), st
        if len(vs) == 1: return app(op, vs[0]), st
        if op == '+' and concat(e[6]): return cat(vs[0], vs[1]), st
        return self.warith(op, vs[0], vs[1], e), st
    def warith(self, op, a, b, e):
        """products computed in 128 or 256 bits are told apart from those computed in a machine word"""
        if op in ('<', '>', '<=', '>=') and 'js::' in e[5]: a, b = positive(a, b)
        if op not in ('*', '<<'): return self.arith(op, a, b)
        t = e[4] + ' ' + e[5] + ' ' + e[6]
        w = 'wide256' if '256' in t else 'wide' if '128' in t else None
        if w is None: return self.arith(op, a, b)
        un = lambda v: v[2] if v[0] == 'c' and v[1] == w else v
        r = self.arith(op, un(a), un(b))
        return app(w, r) if r[0] == 'nop' and r[1] == '*' or r[0] == 'op' and r[1] == '<<' else r

    # ---------------- calls
    def callx(self, line, callee, args, fr, st, cname='', sig=''):
        c, st = self.ev(callee, fr, st)
        if c[0] == 'lam': return self.call_lambda(c, args, fr, st, line)
        vs = []
        for a in args: v, st = self.ev(a, fr, st); vs.append(v)
        if c[0] == 'm' and c[2] in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'front', 'back', 'find', 'count'):
            return app(c[2], c[1], *vs), st       # member of a dependent object
        st = st.copy()
        txt = '%s(%s)' % (show(c), ', '.join(show(x) for x in vs))
        self.event('call', txt, line, fr, st, tuple(vs))
        return app('apply', c, *vs), st
    def e_callx(self, e, fr, st):
        return self.callx(e[1], e[2], e[3], fr, st)

    def call_lambda(self, lam, args, fr, st, line):
        node, dfr = self.lams[lam[1]], lam[2]
        key = ('lam', lam[1])
        if self.stack.count(key) >= 1 or len(self.stack) > 24:
            for a in args: _, st = self.ev(a, fr, st)
            return app('rec-lambda'), st
        st = st.copy()
        for p, a in zip(node[2], args):
            self.bind(p, a, fr, dfr, st)
            st = self._st
        return self.run_lambda(lam, st)
    def bind(self, p, a, fr, dfr, st):
        ty = p[4]
        lv = self.lval(a, fr, st) if ty.endswith('&') else None
        if lv is not None:
            st = st.copy(); 
            if lv[1] != (dfr, p[2]): st.env[(dfr, p[2])] = ('alias', lv[1])
            self._st = st; return
        v, st = self.ev(a, fr, st)
        if ty.endswith('&') and not ty.startswith('const '): self.refkeys.add((dfr, p[2]))
        st = st.copy(); st.env[(dfr, p[2])] = self.conv(v, ty, 'none') if bare(ty) in INTRANK and INTRANK[bare(ty)] < 64 and False else v
        self._st = st
    def run_lambda(self, lam, st, propagate_throw=True):
        node, dfr = self.lams[lam[1]], lam[2]
        pseudo = {'name': self.frames[dfr][0]['name'], 'sig': '', 'file': self.frames[dfr][0]['file'], 'body': node[4]}
        self.stack.append(('lam', lam[1]))
        saved = self.exits; self.exits = []
        depth = len(st.path)
        entry_path = st.path
        self.inlam += 1
        end = self.st(node[4], dfr, st.copy(), {'brk': [], 'cont': []})
        self.inlam -= 1
        rets = self.exits; self.exits = saved
        self.stack.pop()
        if end is not None and not end.dead: rets.append((None, end))
        if not rets:
            d = st.copy(); d.dead = True; return sym('never'), d
        for v, s in rets: s.env[('ret', lam[1])] = v if v is not None else sym('void')
        res = rets[-1][1]
        for v, s in reversed(rets[:-1]):
            c = And(*s.path[depth:]) if len(s.path) > depth else L(fresh('r'))
            res = join(s, res, c, entry_path)
        res.path = entry_path
        return simplify(res.env[('ret', lam[1])]), res

    RUNS_ONCE = {'add_task'}
    ORDERED = {'sort', 'stable_sort', 'partial_sort', 'nth_element', 'min_element', 'max_element', 'lower_bound', 'upper_bound'}
    def order(self, lam, st):
        """an order given as a lambda is named by what it compares"""
        node, dfr = self.lams[lam[1]], lam[2]
        if ('lam', lam[1]) in self.stack: return lam
        s1 = st.copy()
        for i, p in enumerate(node[2]): s1.env[(dfr, p[2])] = sym('$cb%d' % i)
        self.quiet += 1; f0 = _fresh[0]
        r, s1 = self.run_lambda(lam, s1)
        self.quiet -= 1; _fresh[0] = f0
        if s1.dead: return lam
        c = cnf(truth(r)) if r[0] in ('f', 'ite') else None
        if c is None: return app('by', r)
        return sym('by(%s)' % ' && '.join(sorted(cshow(x) for x in primes(c))))
    CALLBACK_NOW = re.compile(r'(add_task|for_each|scan|sort|find_if|any_of|all_of|none_of|remove_if|stable_sort|max_element|min_element|thread|async|set_timer|add_timer)')

    def e_call(self, e, fr, st):
        _, line, name, sig, base, args, rty, virt = e
        sn = short(name)
        b = None
        if base is not None: b, st = self.ev(base, fr, st)
        if b is not None and b[0] == 'c' and b[1] == 'iter': b = app('elem', b[2])
        # ---- std / vnx idioms
        if NOISE.match(name):
            for a in args: _, st = self.ev(a, fr, st)
            return sym('log'), st
        if name in ('std::get0', 'std::get1') and sig.startswith(('(std::pair', '(const std::pair')) and len(args) == 1:
            v, st = self.ev(args[0], fr, st)
            return self.member(v, 'first' if sn == 'get0' else 'second'), st
        if name.startswith('std::') or name.startswith('__gnu'):
            r = self.stdcall(name, sn, b, base, args, fr, st, line, rty)
            if r is not None: return r
        cand = self.pick(name, sig, e)
        if cand is None and name.startswith('mmx::') and name not in self.vocab and sn not in self.inline and self.prog.demand(name): cand = self.pick(name, sig, e)
        if cand is not None and self.should_inline(cand, name):
            return self.inline_call(cand, b, args, fr, st, line)
        vs = []
        byptr = {}
        ts = split_sig(sig)
        for i, a in enumerate(args):
            v, st = self.ev(a, fr, st)
            x = strip(a)
            if i < len(ts) and ts[i].endswith('*') and not ts[i].startswith('const ') and x[0] == 'un' and x[2] == '&':
                # written through its address
                lv = self.lval(x[3], fr, st)
                if lv is None and strip(x[3])[0] != 'var':
                    v, st = self.ev(x[3], fr, st, want_lv=True); byptr[i] = None
                elif lv is not None and not (v[0] == 'v' and v[1].startswith('%')) and not self.isref(lv[1]) and lv[1] not in self.reftgt: v = sym('&'); byptr[i] = lv[1]
            vs.append(v)
        st = st.copy()
        # out-parameters of opaque calls
        self.havoc_outs(sn, sig, args, vs, fr, st)
        for i, key in byptr.items():
            if key is not None: st.env[key] = app('out', sym('%s#%d' % (sn, i)), *[v for j, v in enumerate(vs) if j != i and v[0] != 'lam'])
            else:
                t2 = show(vs[i])
                for m in [m for m in st.mem if m == t2 or m.startswith(t2 + '.')]: del st.mem[m]
        lams = [v for v in vs if v[0] == 'lam']
        if sn in self.ORDERED: vs = [self.order(v, st) if v[0] == 'lam' else v for v in vs]
        full = ([b] if b is not None and not (b == sym('this')) else []) + vs
        txt = '%s(%s)' % (sn, ', '.join(show(x) for x in full))
        pure = rty != 'void' and (sig.endswith('const') or base is None) and not any((t.endswith('&') or t.endswith('*')) and not t.startswith('const ') for t in split_sig(sig))
        if sn not in ('to_string', 'what', 'str', 'to_hex_string'): self.event('pure' if pure else 'call', txt, line, fr, st, tuple(full))
        for l in lams:
            if sn in self.RUNS_ONCE:
                _, s2 = self.run_lambda(l, st)
                st = s2 if not s2.dead else st
            else: st = self.run_callback(l, st, line)
        if sn in ('to_big_endian', 'from_big_endian') or False: return app(sn, *vs), st
        if b is not None and self.is_mutating(name, sig): 
            t = show(b)
        if rty == 'bool' : return ('f', L(txt)), st
        return app(sn, *full), st
    def is_mutating(self, name, sig): return not sig.endswith('const')

    def havoc_outs(self, sn, sig, args, vs, fr, st):
        ts = split_sig(sig)
        for i, (a, t) in enumerate(zip(args, ts)):
            if t.endswith('&') and not t.startswith('const ') and not t.endswith('&&'):
                lv = self.lval(a, fr, st)
                if lv and lv[0] == 'var':
                    old = st.env.get(lv[1])
                    if old is not None and old[0] in ('lam',): continue
                    if STREAMS.search(t):    # a stream stays the same object however much is written to it
                        for m in [m for m in st.mem if m.startswith(show(old) + '.')]: del st.mem[m]
                        continue
                    if old is not None and old[0] == 'v' and old[1].startswith('%'):
                        for m in [m for m in st.mem if m.startswith(old[1] + '.')]: del st.mem[m]
                        if old[1].startswith(('%map', '%set', '%vector', '%unordered', '%list', '%deque', '%string')) or True: 
                            st.env[lv[1]] = old; continue
                    st.env[lv[1]] = app('out', sym('%s#%d' % (sn, i)), *[v for j, v in enumerate(vs) if j != i and v[0] != 'lam'])
                else:
                    t2 = show(vs[i])
                    for m in [m for m in st.mem if m == t2 or m.startswith(t2 + '.')]: del st.mem[m]

    def run_callback(self, lam, st, line):
        """a lambda handed to an opaque function: may run zero or more times"""
        node, dfr = self.lams[lam[1]], lam[2]
        if ('lam', lam[1]) in self.stack: return st
        s1 = st.copy()
        for i, p in enumerate(node[2]): s1.env[(dfr, p[2])] = sym('$cb%d' % i)
        # it may have run before: what it writes is unknown when it starts
        self.quiet += 1; f0 = _fresh[0]
        _, s0 = self.run_lambda(lam, s1)
        self.quiet -= 1; _fresh[0] = f0
        if not s0.dead:
            for m in [m for m in s1.mem if s0.mem.get(m) != s1.mem[m]]: del s1.mem[m]
            for k in [k for k in s1.env if k != ('ret', lam[1]) and s0.env.get(k) != s1.env[k] and s1.env[k][0] not in ('lam', 'alias') and not (s1.env[k][0] == 'v' and s1.env[k][1].startswith(('%', '$')))]:
                s1.env[k] = app('cbval', s1.env[k])
        _, s1 = self.run_lambda(lam, s1)
        if s1.dead: return st
        return join(s1, st, L(fresh('cb')), st.path)

    def stdcall(self, name, sn, b, base, args, fr, st, line, rty):
        def evs():
            nonlocal st
            vs = []
            for a in args: v, st = self.ev(a, fr, st); vs.append(v)
            return vs
        if sn in ('dynamic_pointer_cast', 'static_pointer_cast', 'const_pointer_cast'):
            v, st = self.ev(args[0], fr, st)
            if sn != 'dynamic_pointer_cast': return v, st
            t = tshort(rty); t = t[t.index('<') + 1:-1] if '<' in t else t
            return mkite(L('is<%s>(%s)' % (t, show(v))), v, NULL), st
        if sn in ('move', 'forward', 'as_const', 'ref', 'cref', 'addressof', 'get_deleter'): return self.ev(args[0], fr, st)
        if sn in ('max', 'min') and len(args) == 2:
            vs = evs(); return app(sn, *sorted(vs, key=show)), st
        if sn in ('max', 'min') and len(args) == 1:
            vs = evs(); return app(sn, *vs), st
        if sn == 'make_shared' or sn == 'make_unique':
            vs = evs(); t = tshort(rty); t = t[t.index('<') + 1:-1] if '<' in t else t
            return app('new', sym(t), *vs), st
        if sn in ('any_of', 'all_of', 'none_of', 'for_each', 'find_if') and len(args) == 3:
            vs = evs()
            if vs[0][0] == 'c' and vs[0][1] in ('begin', 'cbegin') and vs[2][0] == 'lam' and self.lams[vs[2][1]][2]:
                el = app('elem', vs[0][2]); node, dfr = self.lams[vs[2][1]], vs[2][2]
                s1 = st.copy(); s1.env[(dfr, node[2][0][2])] = el
                r, s2 = self.run_lambda(vs[2], s1)
                if sn == 'for_each':
                    st = st.copy()
                    if not s2.dead:
                        st.was = Facts(st.was.s | {c for c in s2.was.s - st.was.s if any('elem(' in a for a, p in c)})
                        st.cur = Facts(st.cur.s | {c for c in s2.cur.s - st.cur.s if any('elem(' in a for a, p in c)})
                    return sym('void'), st
                f = truth(r)
                if sn == 'find_if': return app('find_if', vs[0][2], ('f', f)), st
                if sn == 'none_of': return ('f', Not(f)), st
                return ('f', f), st
            return app(sn, *vs), st
        if sn == 'make_pair': return app('pair', *evs()), st
        if sn == 'get' and b is not None: return b, st
        if sn == 'bind': 
            vs = evs(); return app('bind', *vs), st
        if sn in ('rethrow_exception',):
            vs = evs(); self.event('throw', 'throw rethrow', line, fr, st); st = st.copy(); st.dead = True; return sym('never'), st
        if sn in ('begin', 'cbegin', 'end', 'cend', 'size', 'empty', 'count', 'find', 'lower_bound', 'upper_bound', 'front', 'back', 'data', 'c_str', 'length', 'rbegin', 'rend', 'substr', 'value', 'load'):
            vs = evs()
            if b is None and vs: b, vs = vs[0], vs[1:]
            if sn == 'length': sn = 'size'
            if sn == 'load': return b, st
            if sn == 'empty': return ('f', truth(app('empty', b))), st
            return app(sn, b, *vs), st
        if sn == 'at' and b is not None:
            vs = evs(); return self.index(b, vs[0]), st
        if b is not None and sn in MUTATORS:
            vs = evs(); st = st.copy()
            t = show(b)
            txt = '%s(%s)' % (sn if sn not in ('emplace', 'emplace_back', 'emplace_hint', 'try_emplace') else {'emplace': 'insert', 'emplace_back': 'push_back'}.get(sn, 'insert'), ', '.join(show(x) for x in [b] + vs))
            pre = st.cur.s
            st.cur = st.cur.kill('has(' + t); st.cur = st.cur.kill('empty(' + t); st.cur = st.cur.kill('at(' + t); st.cur = st.cur.kill('size(' + t)
            for m in [m for m in st.mem if m == t or m.startswith(t)]: del st.mem[m]
            tgt = strip(base) if base is not None else None
            self.event('call', txt, line, fr, st, tuple([b] + vs))
            lv = self.lval(base, fr, st) if base is not None else None
            if sn in ('insert', 'emplace'):
                if vs and frozenset([('has(%s, %s)' % (t, show(vs[0])), False)]) in pre:
                    st.fact('inserted(%s, %s)' % (t, show(vs[0])))
                key = vs[0][2] if vs and vs[0][0] == 'c' and vs[0][1] in ('pair', 'init') and len(vs[0]) >= 4 and sn == 'insert' else (vs[0] if vs else NULL)
                return app('insert', b, key), st
            if sn == 'reset' and lv is not None: st.env[lv[1]] = NULL if not vs else vs[0]
            elif lv is not None and lv[0] == 'var' and not self.isref(lv[1]) and lv[1] in st.env:
                old = st.env[lv[1]]
                # a local value (for example a string computed so far) is a different value afterwards
                if sn in VALMUT and (old[0] in ('op', 'ite', 'i', 's') or old[0] == 'c' and old[1] not in REFVAL or old[0] == 'v' and old[1].startswith('~') or old[0] == 'fold'): st.env[lv[1]] = app(sn, old, *vs)
            return app(sn, b, *vs), st
        return None

    def pick(self, name, sig, e):
        c = [f for f in self.prog.fns.get(name, ()) if f['sig'] == sig and not f['dep']]
        if not c: 
            c = [f for f in self.prog.fns.get(name, ()) if not f['dep'] and len(f['params']) == len(e[5])] if name not in self.vocab else []
            if len({(f['file'], f['line']) for f in c}) != 1: return None
        return c[0]

    def should_inline(self, f, name):
        if f['name'] + f['sig'] in self.stack: return False
        if len([x for x in self.stack if isinstance(x, str)]) > self.max_depth: return False
        sn = short(name)
        if name in self.opaque or sn in self.opaque: return False
        if name in self.inline or sn in self.inline: return True
        return name not in self.vocab

    def inline_call(self, f, b, args, fr, st, line):
        nfr = self.new_frame(f, b if b is not None else sym('nothis'))
        self.inlined.add(f['name'])
        st = st.copy()
        for p, a in zip(f['params'], args):
            self.bind(p, a, fr, nfr, st); st = self._st
        if st.dead: return sym('never'), st
        for p in f['params'][len(args):]:
            st.env[(nfr, p[2])] = sym('$missing')
        res = self.body(f, nfr, st)
        if res.dead: return sym('never'), res
        return res.env.get((nfr, 'ret'), sym('void')), res

REFVAL = ('new', 'begin', 'end', 'find', 'elem', 'at', 'front', 'back', 'iter', 'insert')
VALMUT = ('resize', 'pop_back', 'push_back', 'erase', 'clear', 'append', 'assign', 'pop_front', 'push_front')
def cat(a, b):
    def parts(v): return parts(v[2]) + parts(v[3]) if v[0] == 'op' and v[1] == '++' else [v]
    xs = parts(a) + parts(b)
    r = xs[0]
    for x in xs[1:]: r = ('op', '++', r, x)
    return r
def concat(t):
    """is + on this type a concatenation?"""
    return 'string' in t or bool(re.search(r'(bytes_t|hash_t|addr_t|pubkey_t|signature_t|hash_512_t|skey_t|vector<)', t)) and 'iterator' not in t
def is_arith(v):
    return v[0] == 'sum' or v[0] == 'nop' and v[1] == '*' or v[0] == 'op' and v[1] == '<<'
UNSIGNED = {'unsigned char', 'unsigned short', 'unsigned int', 'unsigned long', 'unsigned long long', 'uint128_t', 'mmx::uint128', 'uint256_t', 'js::var', 'unsigned __int128'}
def strip(e):
    while e is not None and e[0] in ('cast', 'icast'): e = e[-1]
    return e

_sig = {}
STREAMS = re.compile(r'\bWriteBytes ?&$')
def split_sig(sig):
    r = _sig.get(sig)
    if r is None:
        s = sig[1:sig.rindex(')')] if ')' in sig else ''
        out, d, cur = [], 0, ''
        for ch in s:
            if ch in '<(': d += 1
            if ch in '>)': d -= 1
            if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
            else: cur += ch
        if cur.strip(): out.append(cur.strip())
        out = [re.sub(r'\s*\b(__)?restrict$', '', x).strip() for x in out]
        r = _sig[sig] = out
    return r

def has_ph(v): return False
def mentions(v, t):
    if v == t: return True
    if isinstance(v, tuple): return any(mentions(x, t) for x in v)
    return isinstance(v, str) and '~' in v and not isinstance(t, str) and t[1] in v
def positive(a, b):
    """a compared with b where arithmetic cannot wrap (contracts: an underflow fails the call): subtracted terms move to the other side"""
    if not any(v[0] == 'sum' and any(c < 0 for _, c in v[2]) for v in (a, b)): return a, b
    d = add(b, a, True)
    if d[0] != 'sum': return a, b
    mk = lambda k, ts: ('i', k) if not ts else ts[0][0] if k == 0 and len(ts) == 1 and ts[0][1] == 1 else ('sum', k, ts)
    return mk(max(-d[1], 0), tuple((t, -c) for t, c in d[2] if c < 0)), mk(max(d[1], 0), tuple((t, c) for t, c in d[2] if c > 0))
def additive(end, ph):
    """end == ph + e: returns e (None when it is not of that form)"""
    if end == ph: return ('i', 0)
    if end[0] == 'sum':
        if dict(end[2]).get(ph) == 1:
            e = add(end, ph, True)
            return None if '~' in show(e) else e
        return None
    if end[0] == 'ite' and '~' not in fshow(end[1]):
        x, y = additive(end[2], ph), additive(end[3], ph)
        if x is not None and y is not None: return mkite(end[1], x, y)
    return None
def total(rng, e):
    if e[0] == 'sum':
        r = total(rng, ('i', e[1])) if e[1] else ('i', 0)
        for t, c in e[2]: r = add(r, binop('*', ('i', c), total(rng, t)))
        return r
    if 'elem(' not in show(e) and 'at(' not in show(e) and 'idx(' not in show(e): return binop('*', e, app('size', rng))
    if e[0] == 'nop' and e[1] == '*':
        out = [x for x in e[2:] if 'elem(' not in show(x) and 'at(' not in show(x) and 'idx(' not in show(x)]
        if out:
            r = app('total', rng, ('nop', '*') + tuple(x for x in e[2:] if x not in out) if len(e) - 2 - len(out) > 1 else [x for x in e[2:] if x not in out][0])
            for x in out: r = binop('*', r, x)
            return r
    return app('total', rng, e)

def simplify(v): return v

def known(f, cs):
    """truth value of f under the unit facts of cs, or None"""
    k = f[0]
    if k == 'T': return True
    if k == 'F': return False
    if k == 'L':
        if frozenset([(f[1], f[2])]) in cs: return True
        if frozenset([(f[1], not f[2])]) in cs: return False
        return None
    r = [known(x, cs) for x in f[1]]
    if k == '&':
        if False in r: return False
        return True if all(x is True for x in r) else None
    if True in r: return True
    return False if all(x is False for x in r) else None

def rename_ph(v, i):
    """the variable's own placeholder becomes ~, placeholders of other loop-carried variables become ~?"""
    def r(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'v' and isinstance(x[1], str) and x[1].startswith('~'):
                return ('v', '~') if x[1] == '~%d' % i else ('v', '~?')
            return tuple(r(y) for y in x)
        if isinstance(x, str) and '~' in x:
            return re.sub(r'~(\d+)', lambda m: '~' if int(m.group(1)) == i else '~?', x)
        return x
    return r(v)

# ------------------------------------------------------------------ queries

_cons = {}
def consistent(cs):
    """facts established at different times can contradict each other; nothing may be concluded from the contradiction itself"""
    r = _cons.get(cs)
    if r is None:
        r = cs
        while propagate(r)[1]:
            core = set(r)
            for c in sorted(r, key=lambda c: (len(c), sorted(c))):
                if c in core and propagate(core - {c})[1]: core.discard(c)
            r = r - core
        _cons[cs] = r
    return r

def entails(facts, clause, extra=()):
    """clause: iterable of (atom-or-regex, pos). regex entries are compiled patterns."""
    cs = facts.s
    lits = list(clause)
    if all(isinstance(a, str) for a, p in lits):
        fc = frozenset(lits)
        for c in cs:
            if c <= fc: return True
        units, conflict = propagate(cs, [(a, not p) for a, p in lits])
        if conflict:
            base = consistent(cs)
            if base is not cs: conflict = propagate(base, [(a, not p) for a, p in lits])[1]
        return conflict
    # regex: try all consistent concrete candidates
    atoms = set(a for c in cs for a, p in c)
    opts = []
    for a, p in lits:
        if isinstance(a, str): opts.append([(a, p)])
        else:
            m = [(x, p) for x in atoms if a.fullmatch(x)]
            if not m: m = [('<none:%s>' % a.pattern, p)]
            opts.append(m)
    n = 1
    for o in opts: n *= len(o)
    if n > 4000: opts = [o[:8] for o in opts]
    for combo in itertools.product(*opts):
        if entails(facts, combo): return True
    return False
