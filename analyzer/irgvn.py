"""Value graphs of LLVM IR functions (global value numbering over SSA, loops kept as recurrences).

A function of the current source is lowered by clang, inlined / promoted / constant-trip loops unrolled by LLVM's own
passes, and every store, call, throw, loop recurrence, exit condition and return value is brought into the canonical form
of bv.py.  Two functions with the same canonical summary compute the same thing; no input is chosen and no path is run."""
import time, os, re, subprocess, tempfile, hashlib, shutil, sys
import facts, bv
from facts import NoAnswer
from bv import BV, const, cval, var

OPT = facts.LLVM + '/bin/opt'
PASSES = ('cgscc(inline),function(sroa,early-cse<memssa>,simplifycfg,loop-simplify,lcssa,loop-mssa(loop-rotate),loop(indvars,loop-unroll-full),'
          'sroa,early-cse<memssa>,simplifycfg,instsimplify,dce),cgscc(inline),function(sroa,early-cse<memssa>,loop-simplify,lcssa,loop-mssa(loop-rotate),loop(indvars,loop-unroll-full),sroa,early-cse<memssa>,loop-simplify,lcssa,loop(indvars,loop-unroll-full),sroa,gvn,instsimplify,dse,simplifycfg,dce,adce,loop-simplify,lcssa),globaldce')

_R = 'function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,gvn,sccp,simplifycfg,loop-simplify,lcssa,loop-mssa(loop-rotate),loop(indvars,loop-unroll-full),sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,gvn,simplifycfg,dce)'
SPEC_PASSES = 'cgscc(inline),' + _R + ',cgscc(inline),' + _R + ',' + _R + ',' + _R + ',function(loop-simplify,lcssa),globaldce'
def lower(path, keep=(), flags=(), include=(), passes=None, only=()):
    """IR of one file; functions whose demangled-name contains a name in keep stay separate (not inlined)"""
    d = tempfile.mkdtemp(prefix='mmxir')
    try:
        a, b = os.path.join(d, 'a.ll'), os.path.join(d, 'b.ll')
        src = path
        cmd = ['clang++-18', '-std=c++17', '-O2', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-fno-slp-vectorize', '-fno-strict-aliasing', '-w', '-S', '-emit-llvm'] + list(flags) + ['-I' + i for i in include] + [src, '-o', a]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise NoAnswer('clang could not compile %s:\n%s' % (path, r.stderr[-1500:]))
        t = open(a).read()
        t = re.sub(r', !llvm\.loop ![0-9]+', '', t)
        for m in re.finditer(r'^@("[^"]+"|[\w.$]+) = .*\balias\b .*?, ptr @("[^"]+"|[\w.$]+)$', t, re.M):
            t = t.replace(m.group(0), '')
            t = re.sub('@' + re.escape(m.group(1)) + r'(?![\w.$])', '@' + m.group(2), t)
        def ed(m):
            if any(k in m.group(0) for k in keep):
                s = m.group(0)
                for l in ('internal ', 'linkonce_odr hidden ', 'linkonce_odr ', 'available_externally '): s = s.replace('define ' + l, 'define ')
                s = re.sub(r' comdat(\([^)]*\))?', '', s)
                return re.sub(r'(#\d+)', r'noinline \1', s, 1)
            s = re.sub(r'define linkonce_odr (hidden )?', 'define internal ', m.group(0))
            return re.sub(r' comdat(\([^)]*\))?', '', s)
        t = re.sub(r'^define .*$', ed, t, flags=re.M)
        t = re.sub(r'\bnoinline\b(?=[^\n]*\})', '', t) if False else t
        open(a, 'w').write(t)
        r = subprocess.run([OPT, '-S', '-inline-threshold=10000000', '-unroll-threshold=10000000', '-unroll-full-max-count=4096', '-unroll-max-iteration-count-to-analyze=4096',
                            '-memdep-block-scan-limit=100000', '-memdep-block-number-limit=100000', '-earlycse-mssa-optimization-cap=1000000', '-passes=' + (passes or PASSES), a, '-o', b], capture_output=True, text=True)
        if r.returncode: raise NoAnswer('opt failed on %s:\n%s' % (path, r.stderr[-1500:]))
        return Module(open(b).read())
    finally:
        shutil.rmtree(d, ignore_errors=True)

class Ty:
    pass
def split_top(s, sep=','):
    out, d, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"': q = not q
        if not q:
            if ch in '([{<': d += 1
            elif ch in ')]}>': d -= 1
        if ch == sep and d == 0 and not q: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
_typ = re.compile(r'\s*(<\{|\{|\[|<|ptr|void|i\d+|half|float|double|label|metadata|token|x86_\w+|%"[^"]+"|%[\w.$]+|\.\.\.)')
def ptype(s, i=0):
    """parses a type at s[i:], returns (type tuple, end)"""
    m = _typ.match(s, i)
    if not m: raise NoAnswer('IR type? ' + s[i:i + 60])
    t, j = m.group(1), m.end()
    if t in ('[', '<'):
        m = re.compile(r'\s*(?:vscale x )?(\d+) x ').match(s, j)
        e, j = ptype(s, m.end())
        j = s.index(']' if t == '[' else '>', j) + 1
        r = ('arr' if t == '[' else 'vec', int(m.group(1)), e)
    elif t in ('{', '<{'):
        fs = []
        close = '}' if t == '{' else '}>'
        while True:
            m = re.compile(r'\s*(%s)' % re.escape(close)).match(s, j)
            if m: j = m.end(); break
            m = re.compile(r'\s*,').match(s, j)
            if m: j = m.end()
            e, j = ptype(s, j); fs.append(e)
        r = ('struct', tuple(fs), t == '<{')
    elif t[0] == 'i' and t[1:].isdigit(): r = ('i', int(t[1:]))
    elif t[0] == '%': r = ('named', t)
    else: r = (t,)
    return r, j

class Module:
    def __init__(self, text):
        self.types, self.globals, self.fns = {}, {}, {}
        self.text = text
        cur = None
        for line in text.split('\n'):
            if cur is not None:
                if line == '}': cur = None
                else: self.fns[cur]['lines'].append(line)
                continue
            if line.startswith('define '):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', line)
                name = m.group(1).strip('"')
                d, j = 1, m.end()
                while d:
                    if line[j] == '(': d += 1
                    elif line[j] == ')': d -= 1
                    j += 1
                self.fns[name] = {'name': name, 'params': split_top(line[m.end():j - 1]), 'lines': [], 'head': line}
                cur = name
            elif line.startswith('%') and ' = type ' in line:
                n, t = line.split(' = type ', 1)
                self.types[n] = t
            elif line.startswith('@'):
                m = re.match(r'@("[^"]+"|[\w.$]+) = (.*)', line)
                self.globals[m.group(1).strip('"')] = m.group(2)
        self._gv = {}
    def find(self, name):
        """by mangled substring"""
        c = [f for n, f in self.fns.items() if name == n] or [f for n, f in self.fns.items() if name in n]
        if len(c) != 1: raise NoAnswer('anchor vanished: function %s (%d found)' % (name, len(c)))
        return c[0]
    def rt(self, t):
        if t[0] == 'named':
            s = self.types.get(t[1])
            if s is None or s == 'opaque': raise NoAnswer('opaque type ' + t[1])
            return ptype(s)[0]
        return t
    def size(self, t):
        t = self.rt(t)
        k = t[0]
        if k == 'i': 
            n = (t[1] + 7) // 8
            a = self.align(t)
            return (n + a - 1) // a * a
        if k == 'ptr' or k == 'double': return 8
        if k == 'float': return 4
        if k in ('arr', 'vec'): return t[1] * self.size(t[2])
        if k == 'struct':
            o = 0
            for f in t[1]:
                a = 1 if t[2] else self.align(f)
                o = (o + a - 1) // a * a + self.size(f)
            a = self.align(t)
            return (o + a - 1) // a * a
        raise NoAnswer('size of %r' % (t,))
    def align(self, t):
        t = self.rt(t)
        k = t[0]
        if k == 'i':
            for a in (1, 2, 4, 8, 16):
                if t[1] <= a * 8: return a
            return 16
        if k in ('ptr', 'double'): return 8
        if k == 'float': return 4
        if k == 'arr': return self.align(t[2])
        if k == 'vec': return min(32, self.size(t))
        if k == 'struct': return 1 if t[2] or not t[1] else max(self.align(f) for f in t[1])
        raise NoAnswer('align of %r' % (t,))
    def field(self, t, i):
        o = 0
        for n, f in enumerate(t[1]):
            a = 1 if t[2] else self.align(f)
            o = (o + a - 1) // a * a
            if n == i: return o, f
            o += self.size(f)
        raise NoAnswer('field')
    def bits(self, t):
        t = self.rt(t)
        if t[0] == 'i': return t[1]
        if t[0] == 'ptr': return 64
        if t[0] == 'vec': return t[1] * self.bits(t[2])
        if t[0] == 'double': return 64
        if t[0] == 'float': return 32
        raise NoAnswer('bits of %r' % (t,))
    def gname(self, name):
        """constant data is the same in two modules when its bytes are, whatever it is called"""
        g = self.gconst(name)
        if not g: return name
        n = 'constant ' + hashlib.sha256(g[1]).hexdigest()[:16]
        self._gv[n] = g
        return n
    def gconst(self, name):
        """(type, bytes) of a constant global, or None"""
        if name in self._gv: return self._gv[name]
        g = self.globals.get(name)
        r = None
        if g:
            m = re.search(r'(?:^|\s)constant\s+(.*)$', g)
            if m:
                try:
                    t, j = ptype(m.group(1))
                    b = self.cbytes(t, m.group(1)[j:].strip())[0]
                    r = (t, b)
                except (NoAnswer, ValueError, IndexError): r = None
        self._gv[name] = r
        return r
    def cbytes(self, t, s):
        """bytes of a constant initializer text; returns (bytes, rest)"""
        t = self.rt(t)
        if s.startswith('zeroinitializer'): return bytes(self.size(t)), s[15:]
        if t[0] == 'i':
            m = re.match(r'(-?\d+|true|false)', s)
            if not m: raise ValueError
            v = {'true': 1, 'false': 0}.get(m.group(1))
            v = int(m.group(1)) if v is None else v
            n = self.size(t)
            return (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'), s[m.end():]
        if t[0] == 'arr' and s.startswith('c"'):
            out, i = b'', 2
            while s[i] != '"':
                if s[i] == '\\': out += bytes([int(s[i + 1:i + 3], 16)]); i += 3
                else: out += s[i].encode(); i += 1
            return out, s[i + 1:]
        if t[0] in ('arr', 'vec'):
            s = s[1:]
            out = b''
            for i in range(t[1]):
                s = s.lstrip(' ,')
                e, j = ptype(s)
                b, s = self.cbytes(e, s[j:].strip())
                out += b
            return out, s.lstrip()[1:]
        if t[0] == 'struct':
            s = s.lstrip('<').lstrip('{')
            out = b''
            for i in range(len(t[1])):
                s = s.lstrip(' ,')
                e, j = ptype(s)
                b, s = self.cbytes(e, s[j:].strip())
                o, _ = self.field(t, i)
                out = out.ljust(o, b'\0') + b
            return out.ljust(self.size(t), b'\0'), s.lstrip()[1:].lstrip('>')
        raise ValueError

def demangle(names):
    r = subprocess.run(['c++filt'] + list(names), capture_output=True, text=True)
    return r.stdout.split('\n')

_ins = re.compile(r'^\s+(?:(%[\w.$-]+|%"[^"]+") = )?(?:(?:tail|musttail|notail) )?([a-z_]+)\b(.*)$')
def parse(fn):
    """blocks: name -> list of (dest, op, rest)"""
    if 'blocks' in fn: return fn['blocks']
    blocks, cur = {}, None
    n = len([p for p in fn['params'] if p != '...'])
    lines = fn['lines']
    i = 0
    first = None
    while i < len(lines):
        line = lines[i]
        m = re.match(r'^("[^"]+"|[\w.$-]+):', line)
        if m:
            cur = '%' + m.group(1).strip('"'); blocks[cur] = []; first = first or cur
        elif line.strip():
            if cur is None: cur = '%' + str(n); blocks[cur] = []; first = cur
            s = line
            if s.lstrip().startswith('switch') and '[' in s and ']' not in s:
                while ']' not in lines[i]: i += 1; s += ' ' + lines[i].strip()
            if re.match(r'^\s+(%\S+ = )?invoke ', s): i += 1; s += ' ' + lines[i].strip()
            if 'landingpad' in s:
                while i + 1 < len(lines) and re.match(r'^\s+(cleanup|catch|filter)', lines[i + 1]): i += 1; s += ' ' + lines[i].strip()
            s = re.sub(r'(, )?![\w.]+ ![0-9]+', '', s)
            m = _ins.match(s)
            if not m: raise NoAnswer('IR? ' + s[:100])
            blocks[cur].append((m.group(1), m.group(2), m.group(3).strip()))
        i += 1
    fn['blocks'], fn['entry'] = blocks, first
    return blocks
def succs(ins):
    if not ins: return []
    d, op, r = ins[-1]
    if op in ('br', 'switch', 'invoke'): return list(dict.fromkeys(re.findall(r'label (%[\w.$-]+|%"[^"]+")', r)))
    return []

class Summary(list):
    pass
_vers, _verl = {}, []
_split = {}
def split(a):
    """(symbolic part, constant) of an offset"""
    r = _split.get(a.key)
    if r is None:
        t, c = bv.terms(a)
        r = _split[a.key] = (frozenset(t.items()), c)
    return r
class Mem:
    """immutable chain of writes to one base"""
    __slots__ = ('prev', 'kind', 'off', 'n', 'val', 'cond', 'id', 'depth')
    _n = 0
    def __init__(s, prev, kind, off, n, val, cond):
        s.prev, s.kind, s.off, s.n, s.val, s.cond = prev, kind, off, n, val, cond
        s.depth = prev.depth + 1 if prev is not None else 0

ONE = const(1, 1)
class Eval:
    flip = False
    def __init__(self, mod, fn, args=None, pure=(), argnames=None, peel=False):
        self.peel = peel
        self._ver, self._nal = {}, {}
        self.mod, self.fn = mod, fn
        self.blocks = parse(fn)
        self.env = {}
        self.mem = {}          # base -> Mem
        self.out = Summary()
        self.pure = pure
        self.nloop = 0
        self.ncall = 0
        self.rec = True
        self.retval = None
        self.rets = []
        for i, p in enumerate(fn['params']):
            if p == '...': continue
            t, j = ptype(p)
            nm = re.search(r'(%[\w.$-]+|%"[^"]+")\s*$', p)
            nm = nm.group(1) if nm else '%' + str(i)
            if t[0] == 'ptr': v = var('ptr', 64, 'arg%d' % i)
            else:
                v = var('arg', self.mod.bits(t), i)
            self.env[nm] = v
        self.cfg()
    def cfg(self):
        b = self.blocks
        self.succ = {n: succs(i) for n, i in b.items()}
        seen, order = set(), []
        st = [(self.fn['entry'], iter(self.succ[self.fn['entry']]))]
        seen.add(self.fn['entry'])
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                order.append(n); st.pop()
        self.rpo = order[::-1]
        self.num = {n: i for i, n in enumerate(self.rpo)}
        self.pred = {n: [] for n in self.rpo}
        for n in self.rpo:
            for s in self.succ[n]: self.pred[s].append(n)
        # dominators
        idom = {self.rpo[0]: self.rpo[0]}
        ch = True
        while ch:
            ch = False
            for n in self.rpo[1:]:
                ps = [p for p in self.pred[n] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    a, c = x, p
                    while a != c:
                        while self.num[a] > self.num[c]: a = idom[a]
                        while self.num[c] > self.num[a]: c = idom[c]
                    x = a
                if idom.get(n) != x: idom[n] = x; ch = True
        self.idom = idom
        def dom(a, n):
            while True:
                if a == n: return True
                if n == self.rpo[0]: return False
                n = idom[n]
        self.loops = {}
        for n in self.rpo:
            for s in self.succ[n]:
                if dom(s, n):
                    body = self.loops.setdefault(s, {s})
                    w = [n]
                    while w:
                        x = w.pop()
                        if x not in body: body.add(x); w += self.pred[x]
                elif self.num[s] <= self.num[n]: raise NoAnswer('irreducible control flow')
    # ---- values
    def operand(self, t, s):
        s = s.strip()
        t = self.mod.rt(t) if t[0] == 'named' else t
        if s.startswith('%'):
            v = self.env.get(s)
            if v is None: raise NoAnswer('undefined value ' + s)
            return v
        if s.startswith('@'):
            return var('ptr', 64, 'glob', self.mod.gname(s[1:].strip('"')))
        if t[0] == 'vec':
            if s.startswith('zeroinitializer'): return const(self.mod.bits(t), 0)
            if s.startswith('<'):
                parts = []
                for e in split_top(s[1:-1]):
                    et, j = ptype(e); parts.append(self.operand(et, e[j:]))
                return bv.concat(parts)
            m = re.match(r'splat \((.*)\)', s)
            if m:
                et, j = ptype(m.group(1)); return bv.concat([self.operand(et, m.group(1)[j:])] * t[1])
        w = self.mod.bits(t)
        if s in ('poison', 'undef'): return var(s, w)
        if s in ('true', 'false'): return const(1, s == 'true')
        if s in ('null', 'zeroinitializer'): return const(w, 0)
        if re.match(r'-?\d+$', s): return const(w, int(s))
        m = re.match(r'getelementptr (?:inbounds )?\((.*)\)$', s)
        if m: return self.gep(m.group(1))
        if t[0] in ('double', 'float'): return var('fconst', w, s)
        m = re.match(r'(ptrtoint|inttoptr|bitcast) \((.*) to .*\)$', s)
        if m:
            tt, j = ptype(m.group(2)); return self.operand(tt, m.group(2)[j:])
        m = re.match(r'(extractelement|trunc|zext|sext|add|sub|xor|or|and|shl|lshr|icmp \w+) \((.*)\)$', s)
        if m:
            p = split_top(m.group(2))
            if m.group(1) == 'extractelement':
                (vt, v), (_, i) = self.tv(p[0]), self.tv(p[1])
                if cval(i) is not None: return bv.extract(v, cval(i) * self.mod.bits(vt[2]), self.mod.bits(vt[2]))
            elif len(p) == 2 and m.group(1) in ('add', 'sub', 'xor'):
                x, y = self.tv(p[0])[1], self.tv(p[1])[1]
                return {'add': bv.add, 'sub': bv.sub, 'xor': bv.xor}[m.group(1)](x, y)
        raise NoAnswer('operand? ' + s[:80])
    def tv(self, s):
        """'type [attrs] value'"""
        t, j = ptype(s)
        r = re.sub(r'^(?:\s*(?:noundef|nonnull|noalias|nocapture|readonly|writeonly|readnone|immarg|signext|zeroext|returned|inreg|captures\([^)]*\)|align \d+|dereferenceable(?:_or_null)?\(\d+\)|range\([^)]*\)|(?:sret|byval)\([^()]*(?:\([^()]*\))?[^()]*\)|nofpclass\([^)]*\)|swiftself|noalias))+', '', s[j:])
        return t, self.operand(t, r)
    def gep(self, r):
        r = re.sub(r'^(?:\s*(?:inbounds|nuw|nusw|inrange\([^)]*\)))+', '', r)
        p = split_top(r)
        t, _ = ptype(p[0])
        _, a = self.tv(p[1])
        ts = [(a, 1)]
        for n, x in enumerate(p[2:]):
            it, iv = self.tv(x)
            if n:
                t = self.mod.rt(t)
                if t[0] == 'struct':
                    o, t = self.mod.field(t, cval(iv)); ts.append((const(64, o), 1)); continue
                t = t[2]
            ts.append((bv.sext(iv, 64), self.mod.size(t)))
        return bv.addn(64, ts)
    def base(self, a):
        """(base key, offset BV) of an address"""
        t, c = bv.terms(a)
        bs = []
        for k, co in t.items():
            A = bv.single(bv._bvlist[k])
            if A is not None and A.kind in ('ptr', 'alloca', 'retptr') and co == 1: bs.append((k, A))
        if len(bs) == 1:
            k, A = bs[0]
            rest = {x: y for x, y in t.items() if x != k}
            return (A.kind,) + A.key, bv.fromlin(64, rest, c)
        if len(bs) == 0:
            cand = [(k, co) for k, co in t.items() if co == 1]
            for k, co in cand:
                A = bv.single(bv._bvlist[k])
                if A is not None and A.kind in ('ld', 'call', 'phi'):
                    rest = {x: y for x, y in t.items() if x != k}
                    return ('ind', k), bv.fromlin(64, rest, c)
        return ('any', a.key), const(64, 0)
    # ---- memory
    def write(self, addr, n, val, kind='st'):
        b, off = self.base(addr)
        self.bound(b, off, n, 'write')
        self.mem[b] = Mem(self.mem.get(b), kind, off, n, val, self.reach)
        self.written.add(b)
    def load(self, addr, n):
        b, off = self.base(addr)
        self.bound(b, off, n, 'read')
        return self.loadb(b, off, n, self.mem.get(b))
    def bound(self, b, off, n, what):
        """an access outside a local object or constant table, whatever the input"""
        o = bv.sval(off)
        if o is None or n is None or self.reach is not ONE: return
        k = b[1] if b[0] == 'alloca' else None
        if b[0] == 'ptr' and b[1] == 'glob':
            g = self.mod.gconst(b[2])
            if g: k = len(g[1])
        if k is not None and not 0 <= o <= k - n: self.out.append(('%s of %d bytes at offset %d of an object of %d bytes' % (what, n, o, k), const(1, 1)))
    def diff(self, a, b):
        (x, c), (y, d) = split(a), split(b)
        if x != y: return None
        d = (c - d) & ((1 << a.w) - 1)
        return d - (1 << a.w) if d >> (a.w - 1) else d
    def loadb(self, b, off, n, node):
        """n bytes; low byte first"""
        while node is not None:
            if node.kind == 'epoch': break
            d = self.diff(off, node.off)
            implied = bv.band(self.reach, node.cond) is self.reach
            excl = cval(bv.band(self.reach, node.cond)) == 0
            if excl: node = node.prev; continue
            if d is not None and node.n is not None:
                if d >= node.n or d + n <= 0: node = node.prev; continue
                if node.kind == 'st' and d >= 0 and d + n <= node.n:
                    v = bv.extract(node.val, 8 * d, 8 * n)
                    if implied: return v
                    return bv.sel(node.cond, v, self.loadb(b, off, n, node.prev))
                if n > 1 and node.kind == 'st':
                    return bv.concat([self.loadb(b, bv.add(off, const(64, i)), 1, node) for i in range(n)])
            elif node.n is not None and node.kind == 'st' and self.disjoint(off, n, node.off, node.n):
                node = node.prev; continue
            break
        ver = self.version(b, node)
        if node is None and b[0] == 'ptr' and b[1] == 'glob':
            g = self.mod.gconst(b[2])
            o = bv.sval(off)
            if g is not None:
                if o is not None and 0 <= o and o + n <= len(g[1]): return const(8 * n, int.from_bytes(g[1][o:o + n], 'little'))
                b = ('const', hashlib.sha256(g[1]).hexdigest()[:16])
        if n > 1:
            return bv.concat([var('ld', 8, b, bv.add(off, const(64, i)).key, ver) for i in range(n)])
        return var('ld', 8, b, off.key, ver)
    def disjoint(self, a, n, b, m):
        return False
    def version(self, b, node):
        """canonical key of the memory state below which nothing is known"""
        if node is None: return 0
        v = self._ver.get(id(node))
        if v is None: v = self._ver[id(node)] = (node, self._version(b, node))
        return v[1]
    def before(self, b, mem):
        """what is known of b when a loop starts to write it"""
        v = self.version(b, mem.get(b))
        if v == 0: return 0
        i = _vers.get(v)
        if i is None: i = _vers[v] = len(_vers); _verl.append(v)
        return ('V', i)
    def _version(self, b, node):
        if node.kind == 'epoch': return ('e',) + node.val
        if node.kind == 'st':
            # consecutive stores at known distances under one condition: only the resulting bytes count
            sym, cond, m = bv.terms(node.off)[0], node.cond, {}
            while node is not None and node.kind == 'st' and node.cond is cond:
                t, o = bv.terms(node.off)
                if t != sym: break
                if o >> 63: o -= 1 << 64
                for i in range(node.n):
                    if o + i not in m: m[o + i] = bv.extract(node.val, 8 * i, 8).key
                node = node.prev
            return ('m', tuple(sorted(sym.items())), tuple(sorted(m.items())), cond.key, self.version(b, node))
        return ('w', node.kind, node.off.key, node.n, node.val.key if isinstance(node.val, BV) else node.val, node.cond.key, self.version(b, node.prev))
    # ---- run
    def run(self):
        self.reach = ONE
        self.written = set()
        self.region(self.rpo, self.fn['entry'], None)
        # return value
        if self.rets:
            v = None
            for c, x in self.rets:
                v = x if v is None or x is None else bv.sel(c, x, v)
            self.out.append(('returns', v))
        for b, node in sorted(self.mem.items(), key=lambda x: str(x[0])):
            if b[0] == 'alloca': continue
            for lab, val in self.chain(b, node): self.out.append((lab, val))
            while node is not None and node.kind != 'epoch': node = node.prev
            if node is not None: self.out.append(('earlier content of ' + str(self.bname(b)), self.version(b, node)))
        return self.out
    def chain(self, b, node):
        """canonical list of the writes to b since the last epoch"""
        ws = []
        while node is not None and node.kind != 'epoch': ws.append(node); node = node.prev
        ws.reverse()
        final, at = [], {}
        for w in ws:
            if w.kind == 'st':
                # overwritten or mergeable bytes: keep per byte for constant offsets
                k, c = split(w.off)
                l = at.setdefault(k, [])
                for i in list(l):
                    x = final[i]
                    d = self.diff(x.off, w.off)
                    if d is not None and d >= 0 and d + x.n <= w.n and bv.band(x.cond, w.cond) is x.cond: final[i] = None; l.remove(i)
                l.append(len(final))
            final.append(w)
        final = [w for w in final if w is not None]
        # split into aligned bytes -> coalesce into a mapping (symbolic part, cond) -> {byte offset: value}
        out, groups, order = [], {}, []
        simple = all(w.kind == 'st' for w in final)
        if simple:
            keys = {tuple(sorted(bv.terms(w.off)[0].items())) for w in final}
            for w in final:
                t, c = bv.terms(w.off)
                c = c - (1 << 64) if c >> 63 else c
                k = (tuple(sorted(t.items())), w.cond.key)
                g = groups.setdefault(k, {})
                if k not in order: order.append(k)
                for i in range(w.n): g[c + i] = bv.extract(w.val, 8 * i, 8)
            if len({k[0] for k in groups}) > 1 or len({k[1] for k in groups}) > 1:
                pass
            for k in (order if len(keys) > 1 else sorted(order)):
                g = groups[k]
                offs = sorted(g)
                i = 0
                while i < len(offs):
                    j = i
                    while j + 1 < len(offs) and offs[j + 1] == offs[j] + 1 and j + 1 - i < 8: j += 1
                    n = j - i + 1
                    lab = 'store to %s%s+%d (%d bytes)' % (self.bname(b), ''.join('[%s%s]' % ('' if co == 1 else '%d*' % co, bv.show(bv._bvlist[kk], 1)[:80]) for kk, co in k[0]), offs[i], n)
                    out.append((lab, (k, bv.concat([g[o] for o in offs[i:j + 1]]))))
                    i = j + 1
        else:
            for w in final:
                out.append(('write (%s) to %s' % (w.kind, self.bname(b)), (w.kind, w.off, w.n, w.val, w.cond)))
        return out
    def bname(self, b):
        return b[1] if b[0] == 'ptr' and b[1] != 'glob' else ' '.join(str(x) for x in b)
    def region(self, order, head, loop):
        """evaluates the blocks of one loop body (or the function) in RPO"""
        inside = set(order)
        inner = {}
        for h, body in self.loops.items():
            if h in inside and h != head: inner[h] = body
        skip = set()
        edge, state = {}, {}       # (p, n) -> cond ; block -> mem at exit
        base_reach = self.reach
        for n in order:
            if n in skip: continue
            if n == head:
                self.reach = base_reach
            else:
                ps = [p for p in self.pred[n] if p in inside and (p, n) in edge]
                if not ps: continue
                r = const(1, 0)
                for p in ps: r = bv.bor(r, edge[(p, n)])
                if cval(r) == 0: continue
                self.reach = r
                self.merge(n, ps, edge, state)
            if n in inner and n != head:
                outer = [h for h, b in inner.items() if h != n and n in b]
                if not outer or all(o == head for o in outer):
                    body = inner[n]
                    self.loop(n, body, [p for p in self.pred[n] if p not in body], edge, state, loop)
                    skip |= body
                    continue
            self.block(n, edge, state, head, loop)
        self.edges, self.states = edge, state
        return edge, state
    def merge(self, n, ps, edge, state):
        """memory and phis at the join of ps"""
        self.mergemem(ps, state)
        self.phis(n, ps, edge)
    def mergemem(self, ps, state):
        mems = [state[p] for p in ps]
        m0 = dict(mems[0])
        for b in set().union(*[set(m) for m in mems]):
            nodes = [m.get(b) for m in mems]
            if all(x is nodes[0] for x in nodes): m0[b] = nodes[0]; continue
            chains = []
            for x in nodes:
                l = []
                while x is not None: l.append(x); x = x.prev
                chains.append(l[::-1])
            k = 0
            while all(len(c) > k for c in chains) and all(c[k] is chains[0][k] for c in chains): k += 1
            node = chains[0][k - 1] if k else None
            seen = set()
            for c in chains:
                for w in c[k:]:
                    if id(w) in seen: continue
                    seen.add(id(w))
                    node = Mem(node, w.kind, w.off, w.n, w.val, w.cond)
            m0[b] = node
        self.mem = m0
    def relconds(self, n, ps):
        """conditions of the incoming edges relative to the immediate dominator"""
        d = self.idom[n]
        reach = {d: ONE}
        out = {}
        for x in self.rpo[self.num[d]:]:
            if x == n: continue
            if x != d:
                r = const(1, 0)
                for p in self.pred[x]:
                    if (p, x) in out: r = bv.bor(r, out[(p, x)])
                reach[x] = r
                if cval(r) == 0: continue
            if self.num[x] > self.num[n]: break
            bc = self.brc.get(x)
            if bc is None: continue
            for s, c in bc.items():
                out[(x, s)] = bv.band(reach[x], c) if (x, s) not in out else bv.bor(out[(x, s)], bv.band(reach[x], c))
        return [out.get((p, n), const(1, 0)) for p in ps]
    brc = None
    def phis(self, n, ps, edge):
        rel = None
        todo = []
        for d, op, r in self.blocks[n]:
            if op != 'phi': break
            t, inc = self.phi(r)
            vals = [inc[p] for p in ps]
            if all(v == vals[0] for v in vals): todo.append((d, self.operand(t, vals[0]))); continue
            vs = [self.operand(t, v) for v in vals]
            if all(v is vs[0] for v in vs): todo.append((d, vs[0])); continue
            if rel is None: rel = self.relconds(n, ps)
            v = vs[-1]
            for c, x in list(zip(rel, vs))[:-1][::-1]: v = bv.sel(c, x, v)
            todo.append((d, v))
        for d, v in todo: self.env[d] = v
    def phi(self, r):
        t, j = ptype(r)
        inc = {}
        for m in re.finditer(r'\[ (.*?), (%[\w.$-]+|%"[^"]+") \]', r[j:]): inc[m.group(2)] = m.group(1)
        return t, inc
    def loop(self, h, body, pre, edge, state, outer):
        lid = (outer or ()) + (self.loopno(outer),)
        order = [x for x in self.rpo if x in body]
        latches = [p for p in self.pred[h] if p in body]
        phis = []
        for d, op, r in self.blocks[h]:
            if op != 'phi': break
            t, inc = self.phi(r)
            # initial value
            vs = [self.operand(t, inc[p]) for p in pre if (p, h) in edge]
            init = vs[0]
            if any(v is not init for v in vs):
                rel = self.relconds(h, [p for p in pre if (p, h) in edge])
                init = vs[-1]
                for c, x in list(zip(rel, vs))[:-1][::-1]: init = bv.sel(c, x, init)
            phis.append((d, t, inc, init))
        mem0 = dict(self.mem)
        reach0, rec0, out0, written0 = self.reach, self.rec, self.out, self.written
        env0 = dict(self.env)
        if self.peel:
            nout, nret, save = len(self.out), len(self.rets), self.nloopsave()
            cur = {d: init for d, t, inc, init in phis}
            for k in range(5000):
                for d, v in cur.items(): self.env[d] = v
                self.reach = reach0
                e, s = self.region(order, h, lid)
                conts = const(1, 0)
                ls = [l for l in latches if (l, h) in e]
                for l in ls: conts = bv.bor(conts, e[(l, h)])
                if not ls or cval(conts) == 0:
                    for x in order:
                        for y in self.succ[x]:
                            if y not in body and (x, y) in e: edge[(x, y)] = e[(x, y)]; state[x] = s[x]
                    self.reach = reach0
                    return
                if conts is not reach0: break
                cur = self.latchvals(h, ls, phis, e)
                self.mergemem(ls, s)
            self.env, self.mem, self.written, self.reach = dict(env0), dict(mem0), written0, reach0
            del self.out[nout:]; del self.rets[nret:]
            self.nlooprestore(save)
        # pass 1: which phis advance by a constant, which bases are written
        step = {}
        wr = set()
        it = var('iter', 64, lid)
        for rnd in range(6):
            self.env = dict(env0)
            self.mem = dict(mem0)
            for b in wr: self.mem[b] = Mem(self.mem.get(b), 'epoch', None, None, ('loop', lid, b, self.before(b, mem0)), ONE)
            cnt = {}
            cur = {}
            for d, t, inc, init in phis:
                w = init.w
                if d in step:
                    v = bv.addn(w, [(init, 1), (bv.trunc(it, w), step[d])])
                else:
                    c = cnt[init.key] = cnt.get(init.key, -1) + 1
                    if self.flip: c = sum(1 for x in phis if x[3].key == init.key and x[0] not in step) - 1 - c
                    v = var('phi', w, lid, init.key, c)
                    if step.get(('addr', d)): pass
                cur[d] = v
                self.env[d] = v
            self.rec, self.out, self.written, self.reach = False, Summary(), set(), ONE
            save = self.nloopsave()
            e, s = self.region(order, h, lid)
            self.nlooprestore(save)
            wr2 = set(self.written) | wr
            nxt = self.latchvals(h, latches, phis, e)
            new = dict(step)
            for d, t, inc, init in phis:
                if d in new: continue
                k = bv.cval(bv.sub(nxt[d], cur[d])) if nxt[d] is not None else None
                if k is not None: new[d] = k
            if wr2 == wr and new == step: break
            wr, step = wr2, new
        else: raise NoAnswer('loop did not stabilise')
        # final pass, recording
        self.env = dict(env0)
        self.mem = dict(mem0)
        for b in wr: self.mem[b] = Mem(self.mem.get(b), 'epoch', None, None, ('loop', lid, b, self.before(b, mem0)), ONE)
        for d in cur: self.env[d] = cur[d]
        self.out, self.rec, self.written, self.reach = Summary(), rec0, set(), ONE
        e, s = self.region(order, h, lid)
        nxt = self.latchvals(h, latches, phis, e)
        L = Summary()
        name = 'loop ' + '.'.join(map(str, lid))
        conts = const(1, 0)
        for l in latches:
            if (l, h) in e: conts = bv.bor(conts, e[(l, h)])
        L.append((name + ' is entered when', reach0))
        L.append((name + ' continues when', self.canon_cont(conts, it)))
        rec = []
        for d, t, inc, init in phis:
            if d in step: continue
            rec.append((init.key, name + ': value starting as ' + bv.show(init, 2), (init, nxt[d])))
        rec.sort(key=lambda x: x[0])
        L += [(a, b) for _, a, b in rec]
        # writes of one iteration
        ms = [s[l] for l in latches if (l, h) in e]
        m = ms[0] if ms else {}
        for b in sorted(wr, key=str):
            if b in m:
                for lab, val in self.chain(b, m[b]): L.append((name + ': ' + lab, val))
        L += [(name + ': ' + a, x) for a, x in self.out]
        self.out, self.rec = out0, rec0
        if self.rec: self.out += L
        self.written = written0 | wr
        # exits
        exits = [(x, y) for x in order for y in self.succ[x] if y not in body and (x, y) in e]
        for x, y in exits:
            st = dict(s[x])
            for b in wr:
                st[b] = Mem(Mem(mem0.get(b), 'epoch', None, None, ('after', lid, b), ONE), 'epoch', None, None, ('after', lid, b, self.before(b, mem0), len(exits) > 1 and exits.index((x, y))), ONE)
                # constant-offset allocas: nothing more precise
            state[x] = st
            c = reach0 if len(exits) == 1 else bv.band(reach0, e[(x, y)])
            edge[(x, y)] = c
        if len(exits) > 1 and self.rec:
            for i, (x, y) in enumerate(exits): self.out.append((name + ' leaves (%d) when' % i, e[(x, y)]))
        self.brc.setdefault(h, {})
        self.brc[h] = {y: (ONE if len(exits) == 1 else e[(x, y)]) for x, y in exits}
        for x, y in exits:
            if x != h: self.brc[x] = dict(self.brc.get(x, {}))
        # relative conditions through the loop: header -> exiting block -> exit
        if len(exits) == 1:
            x, y = exits[0]
            for z in order: self.brc[z] = {}
            self.brc[h] = {x: ONE} if x != h else {y: ONE}
            if x != h: self.brc[x] = {y: ONE}
        else:
            for z in order: self.brc[z] = {}
            for x, y in exits:
                self.brc[h][x if x != h else y] = e[(x, y)] if (x if x != h else y) not in self.brc[h] else bv.bor(self.brc[h][x if x != h else y], e[(x, y)])
                if x != h: self.brc[x][y] = ONE
        self.reach = reach0
    def canon_cont(self, c, it):
        """continue condition: ult(ITER+1, n) and ITER+1 != n are the same for a counter that starts below n"""
        neg = bv.bnot(c)
        for x, flip in ((c, 0), (neg, 1)):
            A = bv.single(x)
            if A is not None and A.kind == 'ult' and not flip:
                a, b = bv._bvlist[A.key[0]], bv._bvlist[A.key[1]]
                t, k = bv.terms(a)
                if len(t) == 1:
                    (kk, co), = t.items()
                    B = bv.single(bv._bvlist[kk])
                    if B is not None and co == 1 and (B.kind == 'iter' or 'iter' in bv.show(bv._bvlist[kk], 2)): return bv.bnot(bv.eq(a, b))
        return c
    def latchvals(self, h, latches, phis, e):
        ls = [l for l in latches if (l, h) in e]
        out = {}
        for d, t, inc, init in phis:
            vs = [self.operand(t, inc[l]) for l in ls]
            if not vs: out[d] = None; continue
            v = vs[-1]
            if any(x is not v for x in vs):
                for l, x in list(zip(ls, vs))[:-1]: v = bv.sel(e[(l, h)], x, v)
            out[d] = v
        return out
    def loopno(self, outer):
        self._ln = getattr(self, '_ln', {})
        self._ln[outer] = self._ln.get(outer, 0) + 1
        return self._ln[outer]
    def nloopsave(self): return (dict(getattr(self, '_ln', {})), self.ncall, len(self.rets))
    def nlooprestore(self, s): self._ln, self.ncall = s[0], s[1]; del self.rets[s[2]:]
    def ev(self, label, val):
        if self.rec: self.out.append((label, val))
    def block(self, n, edge, state, head, loop):
        ins = self.blocks[n]
        if self.brc is None: self.brc = {}
        for d, op, r in ins:
            if op == 'phi': continue
            self.ins(n, d, op, r, edge, state, loop)
    def out_edge(self, n, s, c, edge, state):
        rc = bv.band(self.reach, c)
        self.brc.setdefault(n, {})
        self.brc[n][s] = bv.bor(self.brc[n][s], c) if s in self.brc[n] and self._cur == n else c
        if cval(rc) == 0: return
        edge[(n, s)] = bv.bor(edge[(n, s)], rc) if (n, s) in edge and self._cur == n else rc
        state[n] = self.mem
    _cur = None
    def ins(self, n, d, op, r, edge, state, loop):
        M = self.mod
        env = self.env
        if op in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            r = re.sub(r'^(?:(?:nuw|nsw|exact|disjoint)\s+)+', '', r)
            t, j = ptype(r)
            a, b = split_top(r[j:])
            x, y = self.operand(t, a), self.operand(t, b)
            if t[0] == 'vec':
                w = M.bits(t[2])
                env[d] = bv.concat([self.bin(op, bv.extract(x, i * w, w), bv.extract(y, i * w, w)) for i in range(t[1])])
            else: env[d] = self.bin(op, x, y)
        elif op == 'icmp':
            p, r = r.split(' ', 1)
            t, j = ptype(r)
            a, b = split_top(r[j:])
            x, y = self.operand(t, a), self.operand(t, b)
            cmp = {'eq': lambda x, y: bv.eq(x, y), 'ne': lambda x, y: bv.bnot(bv.eq(x, y)), 'ult': lambda x, y: bv.ult(x, y), 'ugt': lambda x, y: bv.ult(y, x),
                   'ule': lambda x, y: bv.bnot(bv.ult(y, x)), 'uge': lambda x, y: bv.bnot(bv.ult(x, y)), 'slt': lambda x, y: bv.slt(x, y), 'sgt': lambda x, y: bv.slt(y, x),
                   'sle': lambda x, y: bv.bnot(bv.slt(y, x)), 'sge': lambda x, y: bv.bnot(bv.slt(x, y))}[p]
            if t[0] == 'vec':
                w = M.bits(t[2])
                env[d] = bv.concat([cmp(bv.extract(x, i * w, w), bv.extract(y, i * w, w)) for i in range(t[1])])
            else: env[d] = cmp(x, y)
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            r = re.sub(r'^(?:(?:nneg|nuw|nsw)\s+)+', '', r)
            if op == 'freeze':
                env[d] = self.tv(r)[1]; return
            a, tt = r.rsplit(' to ', 1)
            t, x = self.tv(a)
            t2, _ = ptype(tt)
            if t[0] == 'vec' and op in ('zext', 'sext', 'trunc'):
                w, w2 = M.bits(t[2]), M.bits(t2[2])
                f = {'zext': bv.zext, 'sext': bv.sext, 'trunc': bv.trunc}[op]
                env[d] = bv.concat([f(bv.extract(x, i * w, w), w2) for i in range(t[1])])
                return
            w2 = M.bits(t2)
            env[d] = bv.zext(x, w2) if op == 'zext' else bv.sext(x, w2) if op == 'sext' else bv.trunc(x, w2) if op == 'trunc' else x
        elif op == 'select':
            a, b, c = split_top(r)
            (t, x), (_, y), (_, z) = self.tv(a), self.tv(b), self.tv(c)
            if t[0] == 'vec':
                w = y.w // t[1]
                env[d] = bv.concat([bv.sel(bv.extract(x, i, 1), bv.extract(y, i * w, w), bv.extract(z, i * w, w)) for i in range(t[1])])
            else: env[d] = bv.sel(x, y, z)
        elif op == 'getelementptr': env[d] = self.gep(r)
        elif op == 'alloca':
            t, _ = ptype(r)
            # name the object by its size only (renaming / reordering of locals must not matter)
            if (d, n) not in self._nal:
                k = self.mod.size(t)
                self._nal[(d, n)] = (k, sum(1 for x in self._nal.values() if x[0] == k))
            env[d] = var('alloca', 64, *self._nal[(d, n)])
        elif op == 'load':
            r = re.sub(r'^volatile ', '', r)
            t, j = ptype(r)
            p = split_top(r[j:].lstrip(' ,'))
            if t[0] == 'struct' or t[0] == 'named': raise NoAnswer('aggregate load')
            w = M.bits(t)
            v = self.load(self.tv(p[0])[1], (w + 7) // 8)
            env[d] = bv.trunc(v, w)
        elif op == 'store':
            r = re.sub(r'^volatile ', '', r)
            p = split_top(r)
            t, v = self.tv(p[0])
            n_ = (v.w + 7) // 8
            self.write(self.tv(p[1])[1], n_, bv.zext(v, 8 * n_))
        elif op == 'br':
            self._cur = None
            m = re.match(r'i1 (.*?), label (\S+), label (\S+)', r)
            if m:
                c = self.operand(('i', 1), m.group(1))
                t1, t2 = m.group(2).strip('"'), m.group(3).strip('"')
                self.brc[n] = {}
                self.out_edge(n, t1, c, edge, state); self._cur = n; self.out_edge(n, t2, bv.bnot(c), edge, state)
            else:
                self.brc[n] = {}
                self.out_edge(n, r.split('label ')[1].strip(), ONE, edge, state)
        elif op == 'switch':
            m = re.match(r'(\S+) (.*?), label (\S+) \[(.*)\]', r)
            t, _ = ptype(m.group(1))
            x = self.operand(t, m.group(2))
            rest = ONE
            self.brc[n] = {}
            self._cur = n
            for k, l in re.findall(r'i\d+ (-?\d+), label (%[\w.$-]+)', m.group(4)):
                c = bv.eq(x, const(x.w, int(k)))
                self.out_edge(n, l, bv.band(rest, c), edge, state)
                rest = bv.band(rest, bv.bnot(c))
            self.out_edge(n, m.group(3), rest, edge, state)
        elif op == 'ret':
            v = None
            if not r.startswith('void'): v = self.tv(r)[1] if ptype(r)[0][0] not in ('struct',) else self.agg(r)
            self.rets.append((self.reach, v))
            state[n] = self.mem
            self.finalmem(n)
        elif op == 'unreachable': pass
        elif op in ('call', 'invoke'): self.call(n, d, op, r, edge, state)
        elif op == 'shufflevector':
            a, b, m = split_top(r)
            t, x = self.tv(a); _, y = self.tv(b)
            mt, j = ptype(m)
            w = M.bits(t[2])
            ms = m[j:].strip()
            if ms == 'zeroinitializer': idx = [0] * mt[1]
            elif ms == 'poison': idx = [0] * mt[1]
            else: idx = [int(e.split()[1]) if e.split()[1] not in ('poison', 'undef') else None for e in split_top(ms[1:-1])]
            env[d] = bv.concat([const(w, 0) if i is None else bv.extract(x, i * w, w) if i < t[1] else bv.extract(y, (i - t[1]) * w, w) for i in idx])
        elif op == 'extractelement':
            a, b = split_top(r)
            t, x = self.tv(a); _, i = self.tv(b)
            w = M.bits(t[2])
            if cval(i) is None: raise NoAnswer('variable lane')
            env[d] = bv.extract(x, cval(i) * w, w)
        elif op == 'insertelement':
            a, e, b = split_top(r)
            t, x = self.tv(a); _, v = self.tv(e); _, i = self.tv(b)
            w = M.bits(t[2])
            env[d] = bv.concat([v if k == cval(i) else bv.extract(x, k * w, w) for k in range(t[1])])
        elif op == 'insertvalue':
            p = split_top(r)
            t, j = ptype(p[0])
            cur = env.get(p[0][j:].strip())
            cur = dict(cur) if isinstance(cur, dict) else {}
            cur[tuple(int(x) for x in p[2:])] = self.tv(p[1])[1]
            env[d] = cur
        elif op == 'extractvalue':
            p = split_top(r)
            t, j = ptype(p[0])
            cur = env.get(p[0][j:].strip())
            k = tuple(int(x) for x in p[1:])
            if isinstance(cur, dict): env[d] = cur[k]
            else:
                ft = M.rt(t)
                for i in k: ft = M.rt(ft[1][i] if ft[0] == 'struct' else ft[2])
                env[d] = var('xv', M.bits(ft), cur.key if isinstance(cur, BV) else str(cur), k)
        elif op in ('landingpad', 'resume'):
            if d: env[d] = var('exc', 64, n)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fcmp', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'fneg', 'atomicrmw', 'cmpxchg', 'fence'):
            raise NoAnswer('IR instruction %s is outside the domain' % op)
        else: raise NoAnswer('IR instruction ' + op)
    def agg(self, r):
        t, j = ptype(r)
        v = self.env.get(r[j:].strip())
        if isinstance(v, dict): return tuple(sorted(v.items(), key=lambda x: x[0]))
        return v
    def finalmem(self, n): pass
    def bin(self, op, x, y):
        if op == 'add': return bv.add(x, y)
        if op == 'sub': return bv.sub(x, y)
        if op == 'mul': return bv.mul(x, y)
        if op == 'and':
            for a, b in ((x, y), (y, x)):
                c = cval(b)
                if c and c & (c + 1) == 0: return bv.low(a, c.bit_length())
            return bv.band(x, y)
        if op == 'or': return bv.bor(x, y)
        if op == 'xor': return bv.xor(x, y)
        if op == 'shl':
            if cval(y) is not None and cval(y) >= x.w: self.ev('undefined shift', y)
            return bv.vshl(x, y)
        if op == 'lshr':
            if cval(y) is not None and cval(y) >= x.w: self.ev('undefined shift', y)
            return bv.vlshr(x, y)
        if op == 'ashr': return bv.vashr(x, y)
        if op == 'udiv': return bv.udiv(x, y)
        if op == 'urem': return bv.urem(x, y)
        h = 1 << (x.w - 1)
        if bv.umax(x) < h and bv.umax(y) < h: return bv.udiv(x, y) if op == 'sdiv' else bv.urem(x, y)
        return var(op, x.w, x.key, y.key)
    def call(self, n, d, op, r, edge, state):
        M = self.mod
        dst = None
        if op == 'invoke':
            m = re.search(r'\bto label (\S+) unwind label (\S+)', r)
            dst = m.group(1)
            r = r[:m.start()]
        m = re.search(r'(@"[^"]+"|@[\w.$]+|%[\w.$-]+)\(', r)
        if not m: raise NoAnswer('call? ' + r[:80])
        callee = m.group(1)
        dep, j = 1, m.end()
        while dep:
            if r[j] in '(': dep += 1
            elif r[j] == ')': dep -= 1
            j += 1
        args = [a for a in split_top(r[m.end():j - 1])]
        pre = re.sub(r'^(?:fastcc |noundef |zeroext |signext |nonnull |noalias |range\([^)]*\) |align \d+ |dereferenceable(?:_or_null)?\(\d+\) |nofpclass\([^)]*\) )+', '', r[:m.start()].strip() + ' ')
        rt, _ = ptype(pre)
        name = callee[1:].strip('"')
        v = self.intrinsic(name, args, rt)
        if v is False:
            av = []
            for a in args:
                if a.startswith('metadata'): continue
                av.append(self.tv(a)[1])
            self.ncall += 1
            key = tuple(x.key for x in av)
            vers = []
            for x in av:
                b, off = self.base(x)
                if b[0] in ('ptr', 'alloca', 'ind') and x.w == 64 and b[0] != 'any' and self.mem.get(b) is not None:
                    vers.append((key.index(x.key), self.version(b, self.mem[b])))
            short = name
            if name in ('__cxa_throw',):
                self.ev('throws when', self.reach)
            elif name in ('__cxa_allocate_exception', '__cxa_free_exception', '_Unwind_Resume', '__cxa_begin_catch', '__cxa_end_catch') or 'logic_error' in name or 'runtime_error' in name:
                if d: self.env[d] = var('retptr', 64, name, self.ncall)
                if dst: self._cur = None; self.brc[n] = {}; self.out_edge(n, dst, ONE, edge, state)
                return
            else:
                self.ev('call %s' % short, (self.reach, tuple(av), tuple(vers)))
                for x in av:
                    b, off = self.base(x)
                    if b[0] in ('ptr', 'alloca', 'ind') and not (b[0] == 'ptr' and b[1] == 'glob' and M.gconst(b[2])):
                        k = ('call', name, key, tuple(vers), self.reach.key, b)
                        self.mem = dict(self.mem)
                        self.mem[b] = Mem(self.mem.get(b), 'epoch', None, None, k, ONE)
                        self.written.add(b)
            if d and rt[0] != 'void':
                w = None
                try: w = M.bits(rt)
                except NoAnswer: pass
                self.env[d] = var('call', w or 64, name, key, tuple(vers)) if rt[0] != 'ptr' else var('retptr', 64, name, key, tuple(vers))
        elif v is not None and d: self.env[d] = v
        if dst:
            self._cur = None; self.brc[n] = {}
            self.out_edge(n, dst, ONE, edge, state)
    def intrinsic(self, name, args, rt):
        M = self.mod
        if name.startswith('llvm.'):
            k = name[5:]
            if k.startswith(('lifetime', 'dbg', 'assume', 'experimental.noalias', 'stacksave', 'stackrestore', 'invariant')): return None
            if k.startswith('ubsantrap'): self.ev('undefined shift', self.reach); return None
            if k.startswith('bswap'):
                x = self.tv(args[0])[1]
                return bv.concat([bv.extract(x, 8 * i, 8) for i in range(x.w // 8)][::-1])
            if k.startswith(('fshl', 'fshr')):
                a, b, c = [self.tv(x)[1] for x in args]
                n = cval(c)
                if n is None:
                    return var(k[:4], a.w, a.key, b.key, c.key)
                n %= a.w
                if k.startswith('fshl'): return bv.bor(bv.shl(a, n), bv.lshr(b, a.w - n)) if n else a
                return bv.bor(bv.shl(a, a.w - n), bv.lshr(b, n)) if n else b
            if k.startswith(('umin', 'umax', 'smin', 'smax')):
                a, b = [self.tv(x)[1] for x in args]
                c = bv.ult(a, b) if k[0] == 'u' else bv.slt(a, b)
                return bv.sel(c, a, b) if k[1:4] == 'min' else bv.sel(c, b, a)
            if k.startswith('abs'):
                a = self.tv(args[0])[1]
                return bv.sel(bv.slt(a, const(a.w, 0)), bv.sub(const(a.w, 0), a), a)
            if k.startswith(('memcpy', 'memmove')):
                dst, src, n = [self.tv(x)[1] for x in args[:3]]
                c = cval(n)
                if c is not None and c <= 4096: 
                    if c: self.write(dst, c, self.load(src, c))
                else:
                    b, off = self.base(src)
                    self.write(dst, None, ('copy of', b, off.key, n.key, self.version(b, self.mem.get(b))), 'copy')
                return None
            if k.startswith('memset'):
                dst, v, n = [self.tv(x)[1] for x in args[:3]]
                c = cval(n)
                if c is not None and c <= 4096:
                    if c: self.write(dst, c, bv.concat([v] * c))
                else: self.write(dst, None, ('fill', v.key, n.key), 'fill')
                return None
            if k == 'x86.sha256rnds2':
                a, b, c = [lanes(self.tv(x)[1]) for x in args]
                return unlanes(rnds2(a, b, c))
            if k == 'x86.sha256msg1':
                a, b = [lanes(self.tv(x)[1]) for x in args]
                w = a + [b[0]]
                return unlanes([bv.add(w[i], s0(w[i + 1])) for i in range(4)])
            if k == 'x86.sha256msg2':
                a, b = [lanes(self.tv(x)[1]) for x in args]
                w16 = bv.add(a[0], s1(b[2])); w17 = bv.add(a[1], s1(b[3]))
                return unlanes([w16, w17, bv.add(a[2], s1(w16)), bv.add(a[3], s1(w17))])
            m = re.match(r'x86\.(?:sse2|avx2)\.p(sl|sr)li\.([dq])$', k)
            if m:
                x, n = self.tv(args[0])[1], cval(self.tv(args[1])[1])
                if n is None: raise NoAnswer('variable vector shift')
                w = 32 if m.group(2) == 'd' else 64
                n = min(n & 0xffffffff, w)
                sh = bv.shl if m.group(1) == 'sl' else bv.lshr
                return bv.concat([sh(bv.extract(x, i, w), n) if n < w else const(w, 0) for i in range(0, x.w, w)])
            if k in ('x86.ssse3.pshuf.b.128', 'x86.avx2.pshuf.b'):
                a, m = [self.tv(x)[1] for x in args]
                out = []
                for i in range(a.w // 8):
                    c = cval(bv.extract(m, 8 * i, 8))
                    if c is None: raise NoAnswer('variable byte shuffle')
                    out.append(const(8, 0) if c & 0x80 else bv.extract(a, 8 * ((i & ~15) + (c & 15)), 8))
                return bv.concat(out)
            if k == 'trap': return None
            if k.startswith('aarch64.crypto.sha256') or k.startswith('aarch64'): return arm(k, [self.tv(x)[1] for x in args])
            if k.startswith('x86.') and rt[0] != 'void': raise NoAnswer('machine instruction ' + name)
            return False
        return False
def lanes(x): return [bv.extract(x, 32 * i, 32) for i in range(x.w // 32)]
def unlanes(l): return bv.concat(l)
def S0(x): return bv.xor(bv.xor(bv.rotr(x, 2), bv.rotr(x, 13)), bv.rotr(x, 22))
def S1(x): return bv.xor(bv.xor(bv.rotr(x, 6), bv.rotr(x, 11)), bv.rotr(x, 25))
def s0(x): return bv.xor(bv.xor(bv.rotr(x, 7), bv.rotr(x, 18)), bv.lshr(x, 3))
def s1(x): return bv.xor(bv.xor(bv.rotr(x, 17), bv.rotr(x, 19)), bv.lshr(x, 10))
def ch(x, y, z): return bv.xor(bv.band(x, y), bv.band(bv.bnot(x), z))
def maj(x, y, z): return bv.xor(bv.xor(bv.band(x, y), bv.band(x, z)), bv.band(y, z))
def round256(st, wk):
    a, b, c, d, e, f, g, h = st
    t1 = bv.addn(32, [(h, 1), (S1(e), 1), (ch(e, f, g), 1), (wk, 1)])
    return [bv.addn(32, [(t1, 1), (S0(a), 1), (maj(a, b, c), 1)]), a, b, c, bv.add(d, t1), e, f, g]
def rnds2(a, b, k):
    # a = {H, G, D, C} (low lane first), b = {F, E, B, A}
    st = [b[3], b[2], a[3], a[2], b[1], b[0], a[1], a[0]]
    st = round256(st, k[0]); st = round256(st, k[1])
    A, B, C, D, E, F, G, H = st
    return [F, E, B, A]
def arm(k, a):
    k = k.replace('aarch64.', '')
    if k == 'crypto.sha256su0':
        x, y = lanes(a[0]), lanes(a[1])
        w = x + [y[0]]
        return unlanes([bv.add(w[i], s0(w[i + 1])) for i in range(4)])
    if k == 'crypto.sha256su1':
        d, n, m = map(lanes, a)
        t = [n[1], n[2], n[3], m[0]]
        r0 = bv.addn(32, [(d[0], 1), (t[0], 1), (s1(m[2]), 1)]); r1 = bv.addn(32, [(d[1], 1), (t[1], 1), (s1(m[3]), 1)])
        r2 = bv.addn(32, [(d[2], 1), (t[2], 1), (s1(r0), 1)]); r3 = bv.addn(32, [(d[3], 1), (t[3], 1), (s1(r1), 1)])
        return unlanes([r0, r1, r2, r3])
    if k in ('crypto.sha256h', 'crypto.sha256h2'):
        if k.endswith('h2'): y, x, w = map(lanes, a)
        else: x, y, w = map(lanes, a)
        st = x + y
        for i in range(4): st = round256(st, w[i])
        return unlanes(st[:4] if not k.endswith('h2') else st[4:])
    raise NoAnswer('machine instruction ' + k)

def compare(a, b):
    """differences between two summaries: list of (label, ours, reference)"""
    diffs = []
    la, lb = list(a), list(b)
    def norm(x):
        if isinstance(x, BV): return ('bv', x.w, x.key)
        if isinstance(x, (tuple, list)): return tuple(norm(y) for y in x)
        return x
    from collections import Counter
    ka = Counter((l, norm(v)) for l, v in la)
    kb = Counter((l, norm(v)) for l, v in lb)
    ra, rb = ka - kb, kb - ka
    def pick(l, r):
        out = []
        for lab, v in l:
            k = (lab, norm(v))
            if r.get(k, 0): r[k] -= 1; out.append((lab, v))
        return out
    return pick(la, Counter(ra)), pick(lb, Counter(rb))
def shows(x, depth=3):
    if isinstance(x, BV): return bv.show(x, depth)
    if isinstance(x, (tuple, list)): return '(' + ', '.join(shows(y, depth) for y in x) + ')'
    return str(x)

# ---- definite differences: two words over the same free leaves that are not the same function of them
def _atoms(b, leaves, seen):
    st = [b]
    while st:
        x = st.pop()
        if x.key in seen: continue
        seen.add(x.key)
        for l in x.m:
            for a, _ in l:
                A = bv._byid[a]
                k = _opkeys(A)
                if k is None: leaves.add(a)
                else: st += [bv._bvlist[i] for i in k]
def _opkeys(A):
    if A.kind == 'add': return [k for k, _ in A.key[0]]
    if A.kind == 'mul': return list(A.key[0])
    if A.kind in ('and', 'ult', 'slt', 'udiv', 'shl', 'lshr', 'ashr', 'ite', 'eq0'): return list(A.key)
    return None
def _val(b, env, memo):
    v = memo.get(b.key)
    if v is not None: return v
    r = 0
    for l, m in b.m.items():
        x = m
        for a, s in l:
            y = env.get(a)
            if y is None: y = env[a] = _aval(bv._byid[a], env, memo)
            if isinstance(s, int): x &= (y << s) if s >= 0 else (y >> -s)
            elif not y >> s[1] & 1: x = 0
            if not x: break
        r ^= x
    memo[b.key] = r
    return r
def _aval(A, env, memo):
    f = lambda k: _val(bv._bvlist[k], env, memo)
    M = (1 << A.w) - 1
    sg = lambda v, w: v - (1 << w) if v >> (w - 1) else v
    K = A.key
    if A.kind == 'add': return (sum(f(k) * c for k, c in K[0]) + K[1]) & M
    if A.kind == 'mul':
        r = 1
        for k in K[0]: r *= f(k)
        return r & M
    if A.kind == 'and': return f(K[0]) & f(K[1])
    if A.kind == 'ult': return int(f(K[0]) < f(K[1]))
    if A.kind == 'slt': w = bv._bvlist[K[0]].w; return int(sg(f(K[0]), w) < sg(f(K[1]), w))
    if A.kind == 'udiv': d = f(K[1]); return f(K[0]) // d if d else M
    if A.kind == 'shl': n = f(K[1]); return (f(K[0]) << n) & M if n < A.w else 0
    if A.kind == 'lshr': n = f(K[1]); return f(K[0]) >> n if n < A.w else 0
    if A.kind == 'ashr': n = f(K[1]); return (sg(f(K[0]), A.w) >> min(n, A.w)) & M
    if A.kind == 'ite': return f(K[1]) if f(K[0]) else f(K[2])
    if A.kind == 'eq0': return int(f(K[0]) == 0)
    raise KeyError(A.kind)
def _pairs(x, y, out):
    """corresponding words of two outputs of the same shape; False if the shapes differ"""
    if isinstance(x, BV) or isinstance(y, BV):
        if not (isinstance(x, BV) and isinstance(y, BV)) or x.w != y.w: return False
        out.append((x, y)); return True
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        if len(x) != len(y): return False
        if len(x) == 2 and x[0] == 'V' and y[0] == 'V': return x == y or _pairs(_verl[x[1]], _verl[y[1]], out)
        if len(x) == 5 and x[0] == 'm' and y[0] == 'm':
            if x[1] != y[1] or [o for o, _ in x[2]] != [o for o, _ in y[2]]: return False
            out += [(bv._bvlist[a], bv._bvlist[b]) for (_, a), (_, b) in zip(x[2], y[2])]
            out.append((bv._bvlist[x[3]], bv._bvlist[y[3]]))
            return _pairs(x[4], y[4], out)
        return all(_pairs(a, b, out) for a, b in zip(x, y))
    return x == y
def definite(xs, ys, same=None, n=300):
    """labels of straight-line outputs which are certainly different functions of the same inputs"""
    import random
    from collections import Counter
    rnd = random.Random(1)
    ca, cb = Counter(l for l, _ in xs), Counter(l for l, _ in ys)
    other = dict(ys)
    res = []
    end = time.time() + 20
    for l, v in xs:
        loop = l.startswith('loop')
        if loop and ': store to' not in l and ': value starting as' not in l: continue
        if ca[l] != 1 or cb.get(l) != 1: continue
        ps = []
        if not _pairs(v, other[l], ps): continue
        conds = [p for p in ps if p[0].w == 1][:1]
        ps = [p for p in ps if p[0] is not p[1]]
        la, lb = set(), set()
        sa, sb = set(), set()
        for a, b in ps + conds: _atoms(a, la, sa); _atoms(b, lb, sb)
        free = lambda A: A.kind == 'arg' or (A.kind == 'ld' and A.key[2] == 0)
        if la != lb and (loop or not all(free(bv._byid[a]) for a in la ^ lb)): continue
        la |= lb
        if any(bv._byid[a].kind in ('alloca', 'retptr', 'ptr') for a in la) or (not loop and any(bv._byid[a].kind in ('phi', 'iter') for a in la)): continue
        hit, tried = False, 0
        for t in range(n):
            if time.time() > end: break
            env = {}
            for a in la:
                w = bv._byid[a].w
                r = rnd.getrandbits(w)
                k = rnd.randrange(4)
                env[a] = r if k == 0 else r >> rnd.randrange(w) if k == 1 else (1 << rnd.randrange(w)) + rnd.choice((-1, 0, 1)) & ((1 << w) - 1) if k == 2 else r & ((1 << w) - 1) & ~0xff | rnd.randrange(256) if w > 8 else r
            memo, ea = {}, dict(env)
            if not all(_val(a, ea, memo) and _val(b, ea, memo) for a, b in conds): continue
            tried += 1
            p = next((p for p in ps if _val(p[0], ea, memo) != _val(p[1], ea, memo)), None)
            if p is not None:
                hit = True
                res.append((l, ', '.join('%s = %#x' % (shows(bv.frombv(bv._byid[a]), 1)[:40], env[a]) for a in sorted(la)[:4]))); break
        if not hit and tried >= min(3, n) and same is not None and ca[l] == cb.get(l) == 1: same.add(l)
    return res
def uninitialised(out):
    """results that depend on bytes of local objects nothing was ever written to"""
    la, seen, w = set(), set(), [v for l, v in out]
    end = time.time() + 20
    while w:
        if time.time() > end: return []
        x = w.pop()
        if isinstance(x, (tuple, list)): w += x; continue
        if not isinstance(x, BV) or id(x) in seen: continue
        seen.add(id(x))
        for l in x.m:
            for a, _ in l:
                if a in la: continue
                la.add(a)
                A = bv._byid[a]
                if A.kind == 'ld' and A.key[0][0] == 'alloca' and A.key[2] == 0 and not A.key[0][1] > 1 << 20: return ['a result depends on an uninitialised local object of %d bytes' % A.key[0][1]]
                k = _opkeys(A)
                if k: w += [bv._bvlist[i] for i in k]
    return []
