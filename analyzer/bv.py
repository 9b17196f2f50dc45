"""Canonical value graph of fixed-width words.

A word is a polynomial over GF(2) per bit: an XOR of (mask & AND-of-literals); a literal is an atom shifted by a constant
or one bit of an atom broadcast to all positions.  Bitwise operators, constant shifts, rotations, byte swaps, truncation,
extension and selection are exact in this form, so any two ways of writing the same bit function give the same object.
Sums are atoms keyed by their linear normal form.  Everything is hash-consed: equal objects <=> equal canonical forms."""

class Atom:
    __slots__ = ('id', 'kind', 'w', 'key')
_atoms = {}
def atom(kind, w, *key):
    k = (kind, w, key)
    a = _atoms.get(k)
    if a is None:
        a = Atom(); a.id = len(_atoms); a.kind = kind; a.w = w; a.key = key
        _atoms[k] = a
        _byid.append(a)
    return a
_byid = []

class BV:
    __slots__ = ('w', 'm', 'key', 'h')
_bvs = {}
def mk(w, m):
    """m: dict frozenset(lits) -> mask"""
    fm = {}
    full = (1 << w) - 1
    for lits, mask in m.items():
        mask &= full
        if not mask: continue
        if lits and mask & (mask - 1) == 0:
            i = mask.bit_length() - 1
            lits = frozenset((a, ('b', i - s)) if isinstance(s, int) else (a, s) for a, s in lits)
        v = fm.get(lits, 0) ^ mask
        if v: fm[lits] = v
        else: fm.pop(lits, None)
    key = (w, frozenset(fm.items()))
    b = _bvs.get(key)
    if b is None:
        r = regroup(fm) if len(fm) > 1 else None
        if r is not None: b = mk(w, r)
        else:
            b = BV(); b.w = w; b.m = fm; b.key = len(_bvlist); _bvlist.append(b)
        _bvs[key] = b
    return b
def regroup(fm):
    """one bit of a shifted literal may be written as a broadcast bit.  Canonical: every bit of the word is assigned to
    the shifted group it continues (same displacement of all literals), broadcast form only for what stands alone"""
    bs, ss = {}, {}
    for l, m in fm.items():
        if not l: continue
        k = frozenset(a for a, _ in l)
        if len(k) != len(l): continue
        if all(not isinstance(s, int) for _, s in l): bs.setdefault(k, []).append(l)
        else: ss.setdefault(k, []).append(l)
    out = None
    for k, ls in bs.items():
        c = ss.get(k)
        if not c and len(ls) < 2: continue
        for l in ls:
            d = dict(l)
            for t in c or ():
                # the bit position at which t selects the same bits
                pos, ok = None, True
                for a, s in t:
                    q = d[a][1]
                    if isinstance(s, int):
                        if pos is None: pos = q + s
                        elif pos != q + s: ok = False; break
                    elif s[1] != q: ok = False; break
                if not ok or pos is None or pos < 0: continue
                cur = out if out is not None else fm
                m = cur.get(l, 0)
                if not m >> pos & 1: continue
                if out is None: out = dict(fm)
                m ^= 1 << pos
                if m: out[l] = m
                else: out.pop(l)
                v = out.get(t, 0) ^ (1 << pos)
                if v: out[t] = v
                else: out.pop(t)
        if len(ls) < 2: continue
        g = {}
        cur = out if out is not None else fm
        for l in ls:
            m = cur.get(l, 0)
            while m:
                b = m & -m; m ^= b
                i = b.bit_length() - 1
                g.setdefault(frozenset((a, i - q[1]) for a, q in l), []).append((l, b))
        for t, bits in g.items():
            if len(bits) < 2: continue
            if out is None: out = dict(fm)
            for l, b in bits:
                m = out[l] ^ b
                if m: out[l] = m
                else: out.pop(l)
                out[t] = out.get(t, 0) ^ b
            if not out[t]: out.pop(t)
    return out
_bvlist = []
E0 = frozenset()
def const(w, v): return mk(w, {E0: v & ((1 << w) - 1)})
def isconst(b): return not b.m or (len(b.m) == 1 and E0 in b.m)
def cval(b): return b.m.get(E0, 0) if isconst(b) else None
def sval(b):
    v = cval(b)
    return None if v is None else v - (1 << b.w) if v >> (b.w - 1) else v
def frombv(a): return mk0(a.w, {frozenset([(a.id, 0)]): (1 << a.w) - 1})
def mk0(w, m):
    """like mk without the rewriting of sums (used for the word of an atom itself)"""
    if w == 1: m = {frozenset((a, ('b', -s)) if isinstance(s, int) else (a, s) for a, s in l): k for l, k in m.items()}
    key = (w, frozenset(m.items()))
    b = _bvs.get(key)
    if b is None:
        b = BV(); b.w = w; b.m = dict(m); b.key = len(_bvlist); _bvs[key] = b; _bvlist.append(b)
    return b
def var(kind, w, *key): return frombv(atom(kind, w, *key))
def single(b):
    """the atom if b is exactly that atom"""
    if len(b.m) == 1:
        (l, m), = b.m.items()
        if len(l) == 1:
            (a, s), = l
            A = _byid[a]
            if A.w == b.w and m == (1 << b.w) - 1 and (s == 0 or (b.w == 1 and s == ('b', 0))): return A
    return None
def pmask(b):
    r = 0
    for m in b.m.values(): r |= m
    return r
def umax(b):
    A = single(b)
    if A is not None and A.kind == 'add':
        u = addmax(A)
        if u is not None and u < (1 << b.w): return u
    if A is not None and A.kind == 'bound': return A.key[1]
    c = cval(b)
    if c is not None: return c
    u = (1 << pmask(b).bit_length()) - 1
    if len(b.m) == 1:
        (l, m), = b.m.items()
        if len(l) == 1:
            (a, s), = l
            A = _byid[a]
            if isinstance(s, int) and A.kind in ('add', 'bound'):
                u2 = addmax(A) if A.kind == 'add' else A.key[1]
                if u2 is None or u2 >> A.w: u2 = (1 << A.w) - 1
                u = min(u, u2 << s if s >= 0 else u2 >> -s)
    return u
def addmax(A):
    t, c = A.key
    s = c
    for k, co in t:
        if co >> (A.w - 1): return None
        s += co * umax(_bvlist[k])
    return s

def xor(a, b):
    if len(a.m) < len(b.m): a, b = b, a
    m = dict(a.m)
    for l, k in b.m.items():
        v = m.get(l, 0) ^ k
        if v: m[l] = v
        else: m.pop(l, None)
    return mk(a.w, m)
LIMIT = 6000
def band(a, b):
    if a is b: return a
    if len(a.m) * len(b.m) > LIMIT:
        x, y = sorted((a.key, b.key))
        return var('and', a.w, x, y)
    m = {}
    for l1, k1 in a.m.items():
        for l2, k2 in b.m.items():
            k = k1 & k2
            if k:
                l = l1 | l2
                v = m.get(l, 0) ^ k
                if v: m[l] = v
                else: m.pop(l, None)
    return mk(a.w, m)
def bnot(a): return xor(a, const(a.w, -1))
def bor(a, b): return xor(xor(a, b), band(a, b))
def shl(a, n):
    if n >= a.w: return const(a.w, 0)
    if n == 0: return a
    return mk(a.w, {frozenset((x, s + n) if isinstance(s, int) else (x, s) for x, s in l): k << n for l, k in a.m.items()})
def lshr(a, n):
    if n >= a.w: return const(a.w, 0)
    if n == 0: return a
    return mk(a.w, {frozenset((x, s - n) if isinstance(s, int) else (x, s) for x, s in l): k >> n for l, k in a.m.items()})
def rotl(a, n):
    n %= a.w
    return bor(shl(a, n), lshr(a, a.w - n)) if n else a
def rotr(a, n): return rotl(a, a.w - n % a.w)
def trunc(a, w, force=False):
    if w >= a.w: return a
    A = single(a)
    if A is not None and A.kind == 'add' and (w < 8 or indexlike(A)):
        t, c = A.key
        return addn(w, [(trunc(_bvlist[k], w), co) for k, co in t], c)
    return mk(w, {l: k & ((1 << w) - 1) for l, k in a.m.items()})
def indexlike(A):
    for k, co in A.key[0]:
        for l in _bvlist[k].m:
            for x, s in l:
                if _byid[x].kind not in ('iter', 'arg', 'phi', 'ptr'): return False
    return True
def low(a, n):
    """a & (2^n - 1)"""
    return zext(trunc(a, n), a.w) if n < a.w else a
def zext(a, w):
    if w <= a.w: return a
    A = single(a)
    if A is not None and A.kind == 'add':
        u = addmax(A)
        if u is not None and u < (1 << A.w):
            t, c = A.key
            return addn(w, [(zext(_bvlist[k], w), co) for k, co in t], c)
    return mk(w, dict(a.m))
def sext(a, w):
    if w <= a.w: return a
    if a.w == 1: return bcast(a, w)
    if not pmask(a) >> (a.w - 1) or umax(a) < (1 << (a.w - 1)): return zext(a, w)
    c = cval(a)
    if c is not None: return const(w, sval(a))
    top = bcast(trunc(lshr(a, a.w - 1), 1), w)
    return bor(mk(w, dict(a.m)), band(top, const(w, ((1 << w) - 1) ^ ((1 << a.w) - 1))))
def concat(parts):
    """low part first"""
    w = sum(p.w for p in parts)
    m = {}
    o = 0
    for p in parts:
        for l, k in p.m.items():
            if o: l = frozenset((x, s + o) if isinstance(s, int) else (x, s) for x, s in l)
            v = m.get(l, 0) ^ (k << o)
            if v: m[l] = v
            else: m.pop(l, None)
        o += p.w
    # single-bit pieces were put in broadcast form: fine, mk keeps them
    return mk(w, m)
def extract(a, lo, w): return trunc(lshr(a, lo), w) if lo or w < a.w else a
def bcast(c, w):
    full = (1 << w) - 1
    return mk(w, {frozenset((x, s if not isinstance(s, int) else ('b', -s)) for x, s in l): full for l in c.m})
def sel(c, a, b):
    if a is b: return a
    if isconst(c): return a if cval(c) else b
    if a.w != b.w: raise ValueError
    C = bcast(c, a.w)
    x = xor(a, b)
    if len(C.m) * len(x.m) > LIMIT: return var('ite', a.w, c.key, a.key, b.key)
    return xor(b, band(C, x))
def terms(b):
    """b as linear combination: (dict bvkey -> coef, const)"""
    c = cval(b)
    if c is not None: return {}, c
    A = single(b)
    if A is not None and A.kind == 'add':
        return dict(A.key[0]), A.key[1]
    if len(b.m) == 1:
        (l, m), = b.m.items()
        if len(l) == 1:
            (x, s), = l
            X = _byid[x]
            if isinstance(s, int) and s > 0 and X.w >= b.w - s and m == ((1 << b.w) - 1) ^ ((1 << s) - 1):
                base = frombv(X) if X.w == b.w else trunc(frombv(X), b.w) if X.w > b.w else None
                if base is not None:
                    t, c = terms(base)
                    return {k: (v << s) & ((1 << b.w) - 1) for k, v in t.items()}, (c << s)
            elif isinstance(s, int) and s > 0 and X.w < b.w and m == (((1 << X.w) - 1) << s) & ((1 << b.w) - 1):
                base = zext(frombv(X), b.w)
                t, c = terms(base)
                return {k: (v << s) & ((1 << b.w) - 1) for k, v in t.items()}, (c << s)
    if 1 < len(b.m) <= 400:
        comps = components(b)
        if len(comps) > 1:
            acc, c = {}, 0
            for m in comps:
                t, k = terms(mk(b.w, m)) if E0 not in m or len(m) > 1 else ({}, m[E0])
                c += k
                for kk, v in t.items():
                    v = (acc.get(kk, 0) + v) & ((1 << b.w) - 1)
                    if v: acc[kk] = v
                    else: acc.pop(kk, None)
            return acc, c
    return {b.key: 1}, 0
_comps = {}
def components(b):
    """groups of monomials that occupy disjoint bits (the word is their sum)"""
    r = _comps.get(b.key)
    if r is None:
        g = []
        for l, m in b.m.items():
            if l is E0 or not l: continue
            hit = [x for x in g if x[0] & m]
            for x in hit: g.remove(x)
            g.append([m | sum_or(hit), [(l, m)] + [y for x in hit for y in x[1]]])
        c = b.m.get(E0, 0)
        r = []
        for u, ms in g:
            d = dict(ms)
            if c & u: d[E0] = c & u
            c &= ~u
            r.append(d)
        if c: r.append({E0: c})
        _comps[b.key] = r
    return r
def sum_or(hit):
    u = 0
    for x in hit: u |= x[0]
    return u
def addn(w, ts, c=0):
    full = (1 << w) - 1
    acc = {}
    c &= full
    for b, co in ts:
        t, k = terms(b)
        c = (c + co * k) & full
        for kk, v in t.items():
            v = (acc.get(kk, 0) + co * v) & full
            if v: acc[kk] = v
            else: acc.pop(kk, None)
    return fromlin(w, acc, c)
def fromlin(w, acc, c):
    if not acc: return const(w, c)
    if len(acc) == 1 and c == 0:
        (k, co), = acc.items()
        if co == 1: return _bvlist[k]
        if co & (co - 1) == 0: return shl(_bvlist[k], co.bit_length() - 1)
    # disjoint bits: no carries
    full = (1 << w) - 1
    parts = []
    seen = 0
    ok = True
    for k, co in acc.items():
        if co & (co - 1): ok = False; break
        p = _bvlist[k]
        m = pmask(p) << (co.bit_length() - 1) & full
        A = single(p)
        if m & seen or (A is not None and A.kind in ('add',)): ok = False; break
        seen |= m
        parts.append(shl(p, co.bit_length() - 1))
    if ok and not (c & seen):
        r = const(w, c)
        for p in parts: r = xor(r, p)
        return r
    return frombv(atom('add', w, tuple(sorted(acc.items())), c))
def add(a, b): return addn(a.w, [(a, 1), (b, 1)])
def sub(a, b): return addn(a.w, [(a, 1), (b, -1)])
def muln(w, fs):
    c = 1
    rest = []
    for f in fs:
        v = cval(f)
        if v is not None: c *= v
        else: rest.append(f)
    if not rest: return const(w, c)
    if len(rest) == 1: return addn(w, [(rest[0], c)])
    return addn(w, [(var('mul', w, tuple(sorted(r.key for r in rest))), c)])
def mul(a, b): return muln(a.w, [a, b])
def eq(a, b):
    d = sub(a, b)
    c = cval(d)
    if c is not None: return const(1, int(c == 0))
    if a.w == 1: return bnot(xor(a, b))
    n = addn(a.w, [(d, -1)])
    pm = pmask(d)
    if pm & (pm - 1) == 0 and single(d) is None: return bnot(trunc(lshr(d, pm.bit_length() - 1), 1))
    # drop high bits that cannot be set
    return var('eq0', 1, min(d.key, n.key))
def ult(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None: return const(1, int(ca < cb))
    if cb == 0 or (ca is not None and ca == (1 << a.w) - 1) or a is b: return const(1, 0)
    if cb is not None and umax(a) < cb: return const(1, 1)
    if ca is None and cb is None and a.w == 64:
        d = cval(sub(a, b))
        if d is not None and ptrlike(a):      # both point into the same object
            return const(1, d >> 63)
    if ca is not None and umax(b) <= ca: return const(1, 0)
    if ca == 0: return bnot(eq(b, a))
    if cb == 1: return eq(a, const(a.w, 0))
    if ca is not None: return bnot(ult(b, const(a.w, ca + 1)))
    if cb is not None and cb & (cb - 1) == 0:
        return eq(lshr(a, cb.bit_length() - 1), const(a.w, 0))
    # common zero extension
    n = max(pmask(a).bit_length(), pmask(b).bit_length())
    if n < a.w:
        return ult(trunc(a, n), trunc(b, n))
    return var('ult', 1, a.key, b.key)
def ptrlike(a):
    t, c = terms(a)
    for k, co in t.items():
        A = single(_bvlist[k])
        if A is not None and A.kind in ('ptr', 'alloca', 'retptr') and co == 1: return True
    return False
def slt(a, b):
    ca, cb = sval(a), sval(b)
    if ca is not None and cb is not None: return const(1, int(ca < cb))
    h = a.w - 1
    if umax(a) < (1 << h) and umax(b) < (1 << h): return ult(a, b)
    if ca is not None and cb is None:
        if ca == (1 << h) - 1: return const(1, 0)
        return bnot(slt(b, const(a.w, ca + 1)))
    if cb == 0: return trunc(lshr(a, h), 1)
    return var('slt', 1, a.key, b.key)
def udiv(a, b):
    c = cval(b)
    if c and c & (c - 1) == 0: return lshr(a, c.bit_length() - 1)
    if cval(a) is not None and c: return const(a.w, cval(a) // c)
    return var('udiv', a.w, a.key, b.key)
def urem(a, b):
    c = cval(b)
    if c == 1: return const(a.w, 0)
    if c and c & (c - 1) == 0: return low(a, c.bit_length() - 1)
    if c and umax(a) < c: return a
    return sub(a, mul(udiv(a, b), b))
def vshl(a, n):
    c = cval(n)
    if c is not None: return shl(a, c)
    if cval(a) == 0: return a
    return var('shl', a.w, a.key, n.key)
def vlshr(a, n):
    c = cval(n)
    if c is not None: return lshr(a, c)
    if cval(a) == 0: return a
    return var('lshr', a.w, a.key, n.key)
def vashr(a, n):
    c = cval(n)
    if c is not None:
        if not pmask(a) >> (a.w - 1): return lshr(a, c)
        return trunc(sext(extract(a, c, a.w - c), a.w), a.w) if c else a
    return var('ashr', a.w, a.key, n.key)

def show(b, depth=3):
    c = cval(b)
    if c is not None: return hex(c) if c > 9 else str(c)
    ts = []
    full = (1 << b.w) - 1
    for l, k in b.m.items():
        ls = []
        for x, s in sorted(l, key=str):
            t = showatom(_byid[x], depth - 1)
            if s == 0 and isinstance(s, int): pass
            elif isinstance(s, int): t += '<<%d' % s if s > 0 else '>>%d' % -s
            else: t += '.bit%d' % s[1]
            ls.append(t)
        t = '&'.join(ls)
        if k != full: t += '&%x' % k if t else '%x' % k
        elif not t: t = '~0'
        ts.append(t)
    ts.sort()
    if len(ts) > 12: ts = ts[:12] + ['…%d' % (len(ts) - 12)]
    return ' ^ '.join(ts) if len(ts) < 2 else '(' + ' ^ '.join(ts) + ')'
def showatom(a, depth):
    if depth <= 0: return '%s#%d' % (a.kind, a.id)
    if a.kind == 'add':
        t = ['%s%s' % ('' if c == 1 else '-' if c == (1 << a.w) - 1 else '%d*' % (c if not c >> (a.w - 1) else c - (1 << a.w)), show(_bvlist[k], depth - 1)) for k, c in a.key[0]]
        c = a.key[1]
        if c: t.append(str(c if not c >> (a.w - 1) else c - (1 << a.w)))
        return '(' + ' + '.join(t) + ')'
    if a.kind in ('mul',): return '(' + ' * '.join(show(_bvlist[k], depth - 1) for k in a.key[0]) + ')'
    if a.kind in ('eq0', 'ult', 'slt', 'udiv', 'shl', 'lshr', 'ashr', 'and', 'ite'): return '%s(%s)' % (a.kind, ', '.join(show(_bvlist[k], depth - 1) for k in a.key))
    if a.kind == 'ld': return '%s[%s]' % (a.key[0], show(_bvlist[a.key[1]], depth - 1)) + ('@%s' % (a.key[2],) if a.key[2] else '')
    return '%s(%s)' % (a.kind, ','.join(str(k) for k in a.key))
