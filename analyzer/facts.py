"""Builds the clang fact extractor on demand, runs it over the requested translation units of /repo's current
working tree and loads the result into a Program."""
import hashlib, json, os, re, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('MMX_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'

class NoAnswer(Exception):
    """The analysis could not be carried out (anchor vanished, source does not parse, ...)."""

def cache_dir():
    for d in (os.path.join(VERIF, '.cache'), os.path.join(tempfile.gettempdir(), 'mmxsa.%d' % os.getuid())):
        try:
            os.makedirs(d, exist_ok=True)
            t = os.path.join(d, '.w%d' % os.getpid()); open(t, 'w').close(); os.unlink(t)
            return d
        except OSError:
            continue
    raise NoAnswer('no writable cache directory')

def build_tool():
    src = os.path.join(HERE, 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(cache_dir(), 'extract-' + h)
    if os.path.exists(out):
        return out
    flags = subprocess.run([LLVM + '/bin/llvm-config', '--cppflags'], capture_output=True, text=True).stdout.split()
    tmp = out + '.%d' % os.getpid()
    cmd = ['clang++-18', '-std=c++17', '-O0', '-fno-rtti', '-fno-exceptions', '-w'] + flags + [src, '-o', tmp,
           LLVM + '/lib/libclang-cpp.so.18.1', '-L' + LLVM + '/lib', '-lLLVM-18', '-Wl,-rpath,' + LLVM + '/lib']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise NoAnswer('extractor build failed: ' + r.stderr[-2000:])
    os.replace(tmp, out)
    return out

def clang_args(extra=()):
    inc = ['include', 'generated/include', 'generated/contract/include', 'generated/operation/include', 'generated/solution/include', 'generated/vm/include']
    return ['-std=c++17', '-w', '-ferror-limit=20'] + ['-I' + os.path.join(REPO, d) for d in inc] + ['-I' + os.path.join(VERIF, 'shim/include'), '-I' + LLVM + '/lib/clang/18/include'] + list(extra)

def tree_key():
    """content hash of everything any translation unit may include (sources only if some source is itself included)"""
    hd, cc, incl = hashlib.sha256(), hashlib.sha256(), False
    for root in (os.path.join(REPO, 'include'), os.path.join(REPO, 'generated'), os.path.join(REPO, 'src'), os.path.join(REPO, 'test'), os.path.join(VERIF, 'shim')):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith(('.h', '.hpp', '.hxx', '.cpp', '.cxx', '.cu', '.tcc', '.c', '.inc', '.inl')): continue
                p = os.path.join(d, f)
                data = open(p, 'rb').read()
                h = cc if f.endswith(('.cpp', '.cxx', '.cu', '.c')) else hd
                h.update(os.path.relpath(p, REPO if p.startswith(REPO + '/') else VERIF).encode()); h.update(hashlib.sha256(data).digest())
                incl = incl or re.search(rb'#\s*include[^\n]*\.(cpp|cxx|cu|c)[">]', data) is not None
    if incl: hd.update(cc.digest())
    hd.update(open(os.path.join(HERE, 'extract.cpp'), 'rb').read())
    return hd.hexdigest()[:24]

class Program:
    def __init__(self):
        self.fns = {}      # name -> list of function dicts
        self.recs = {}
        self.enums = {}
        self.vars = {}
        self.tus = []
        self._seen = set()
        self._demanded = set()

    def add(self, items):
        for x in items:
            k = x['k']
            if k == 'fn':
                key = ('f', x['name'], x['sig'], x['file'], x['inst'], x['dep'], x.get('spec', ''))
                if key in self._seen: continue
                self._seen.add(key)
                self.fns.setdefault(x['name'], []).append(x)
            elif k == 'rec':
                o = self.recs.get(x['name'])
                if o is None or len(o['fields']) + len(o['methods']) < len(x['fields']) + len(x['methods']):
                    self.recs[x['name']] = x
            elif k == 'enum':
                self.enums[x['name']] = x
            elif k == 'var':
                o = self.vars.get(x['name'])
                if o is None or (o['init'] is None and x['init'] is not None):
                    self.vars[x['name']] = x

    def get(self, name, sig=None, file=None):
        if sig: sig = sig.replace('~', ' ')
        if '<' in name: name = name.replace('~', ' ')
        c = [f for f in self.fns.get(name, []) if (sig is None or sig in f['sig']) and (file is None or f['file'] == file)]
        nd = [f for f in c if not f['dep']]
        c = nd or c
        if not c:
            raise NoAnswer('anchor vanished: function %s%s' % (name, '' if sig is None else ' with "%s"' % sig))
        uniq = {}
        for f in c:
            uniq.setdefault((f['file'], f['line']), f)
        if len(uniq) > 1:
            raise NoAnswer('anchor ambiguous: %s (%d candidates)' % (name, len(uniq)))
        return next(iter(uniq.values()))

    def more(self, tus, **kw): load(tus, into=self, **kw)

    def demand(self, name):
        """loads further translation units that may define a function that is called but not known yet"""
        sn = name.rsplit('::', 1)[-1].split('<')[0]
        if sn in self._demanded or not name.startswith('mmx::') and '::' in name: return False
        self._demanded.add(sn)
        todo = []
        for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
            for x in sorted(fs):
                t = os.path.relpath(os.path.join(d, x), REPO)
                if x.endswith('.cpp') and t not in self.tus and not re.search(r'cuda|sha256_(ni|arm|avx2)|win|Qt_GUI', t):
                    if re.search(r'\b%s\s*\(' % re.escape(sn), open(os.path.join(d, x), errors='replace').read()): todo.append(t)
        if todo: self.more(todo[:6])
        return bool(todo)

    def all_fns(self, prefix=''):
        for n, l in self.fns.items():
            if n.startswith(prefix):
                for f in l:
                    yield f

def jskey(): return hashlib.sha256(open(os.path.join(HERE, 'jsx.js'), 'rb').read()).hexdigest()[:8] + '-'

def embedded(src, name):
    """the text of one file in a table of C++ string literals: { "name", "text" }"""
    lit = r'(?:R"\((?:.|\n)*?\)"|"(?:[^"\\\n]|\\(?:.|\n))*")'
    src = re.sub(lit + r'|//[^\n]*|/\*(?:.|\n)*?\*/', lambda m: m.group(0) if m.group(0)[0] in '"R' else ' ', src)
    m = re.search(r'[{\[(,]\s*"%s"\s*[\],)]?\s*[,=]\s*((?:%s\s*)+)' % (re.escape(name), lit), src)
    if not m: return None
    out = []
    for t in re.findall(lit, m.group(1)):
        if t[0] == 'R': out.append(t[3:-2]); continue
        out.append(re.sub(r'\\(\n|.)', lambda x: {'n': '\n', 't': '\t', '\n': ''}.get(x.group(1), x.group(1)), t[1:-1]))
    return ''.join(out)

def contract(tu, path, tmp):
    """a smart contract: its JavaScript is rewritten as C++ text (same lines), which is then analysed like any other source"""
    root = tmp + '.js/'
    gen = os.path.join(root, tu)
    os.makedirs(os.path.dirname(gen))
    if '!' in tu:
        name = tu.split('!')[1]; text = embedded(open(path).read(), name)
        if text is None: raise NoAnswer('anchor vanished: %s in %s' % (name, path))
        path = os.path.join(root, 'emb_' + name)
        with open(path, 'w') as f: f.write(text)
    r = subprocess.run(['node', os.path.join(HERE, 'jsx.js'), path, gen], capture_output=True, text=True)
    if r.returncode or not os.path.exists(gen):
        shutil.rmtree(root, ignore_errors=True)
        raise NoAnswer('contract %s does not parse: %s' % (tu, r.stderr[-600:]))
    return root, gen

def load(tus, prefixes=('src/', 'include/'), extra=(), into=None):
    tool = build_tool()
    cdir = os.path.join(cache_dir(), 'facts')
    os.makedirs(cdir, exist_ok=True)
    key = tree_key() + hashlib.sha256((','.join(prefixes) + '|'.join(extra)).encode()).hexdigest()[:8]
    def one(tu):
        path = tu if tu.startswith('/') else os.path.join(REPO, tu.split('!')[0])
        if not os.path.exists(path):
            raise NoAnswer('anchor vanished: file ' + tu)
        out = os.path.join(cdir, key + '-' + hashlib.sha256(open(path, 'rb').read()).hexdigest()[:12] + '-' + (jskey() if tu.endswith('.js') else '') + tu.replace('/', '_') + '.json')
        if not os.path.exists(out):
            tmp = out + '.%d' % os.getpid()
            root, args = REPO + '/', clang_args(extra)
            if tu.endswith('.js'):
                root, path = contract(tu, path, tmp); args = ['-x', 'c++', '-std=c++17', '-w', '-include', 'stdexcept', '-I' + LLVM + '/lib/clang/18/include']
            r = subprocess.run([tool, tmp, root, ','.join(prefixes), path, '--'] + args, capture_output=True, text=True, cwd=REPO)
            if root != REPO + '/': shutil.rmtree(root, ignore_errors=True)
            if r.returncode or 'error:' in r.stderr:
                try: os.unlink(tmp)
                except OSError: pass
                raise NoAnswer('clang could not parse %s:\n%s' % (tu, r.stderr[-1500:]))
            os.replace(tmp, out)
        try: os.utime(out)
        except OSError: pass
        with open(out) as f:
            return json.load(f)
    # drop old fact files so the cache does not grow
    for f in os.listdir(cdir):
        try:
            if time.time() - os.path.getmtime(os.path.join(cdir, f)) > 5400: os.unlink(os.path.join(cdir, f))
        except OSError: pass
    p = into or Program()
    tus = [t for t in dict.fromkeys(tus) if t not in p.tus]
    with ThreadPoolExecutor(8) as ex: got = list(ex.map(one, tus))
    ren = {**renamed(p, got), **renamed_fields(p, got)}
    for tu, items in zip(tus, got):
        p.tus.append(tu); p.add(respell(items, ren) if ren else items)
    return p

_known = []
def signatures(items):
    """name -> {(signature, file or declaring class)}"""
    out, decl = {}, {}
    for x in items:
        if x['k'] == 'rec' and x['name'].startswith(('mmx::', 'js::')):
            for m in x['methods']: decl.setdefault(x['name'] + '::' + m[0], set()).add((m[1], x['name']))
    for x in items:
        if x['k'] == 'fn' and x['name'] not in decl: out.setdefault(x['name'], set()).add((x['sig'], x['file']))
    out.update(decl)
    return out
def known():
    if not _known:
        try: _known.append(json.load(open(os.path.join(HERE, 'known.json'))))
        except OSError: _known.append({'functions': {}, 'fields': {}})
    return _known[0]
def fields(items):
    out = {}
    for x in items:
        if x['k'] == 'rec' and x['name'].startswith(('mmx::', 'js::')) and len(x['fields']) >= len(out.get(x['name'], ())):
            out[x['name']] = {f[0]: f[1] for f in x['fields']}
    return out
def renamed_fields(p, got):
    """the same for data members: {qualified new name: (class, old name)}"""
    if os.environ.get('MMX_NO_RENAME'): return {}
    out = {}
    for c, cur in fields(list(p.recs.values()) + [x for items in got for x in items]).items():
        old = known()['fields'].get(c)
        if not old or re.match(r'js::(\w+_t|base|var|object|array)$', c): continue
        gone, new = [n for n in old if n not in cur], [n for n in cur if n not in old]
        for n in new:
            m = [g for g in gone if old[g] == cur[n]]
            if len(m) == 1 and sum(cur[x] == cur[n] for x in new) == 1: out[c + '::' + n] = (c, m[0])
    return out
def renamed(p, got):
    """{new name: old name} of functions that disappeared from a file while exactly one new function of the same class and
    signature appeared in it: the specification is written in terms of the old name"""
    if os.environ.get('MMX_NO_RENAME'): return {}
    cur = signatures([x for l in p.fns.values() for x in l] + list(p.recs.values()) + [x for items in got for x in items])
    files = {f for l in cur.values() for _, f in l}
    old = known()['functions']
    new = [n for n in cur if n not in old]
    if not new: return {}
    cls = lambda n: n.rpartition('::')[0]
    out = {}
    for m, sf in old.items():
        if m in cur or re.match(r'js::(\w+_t|base|var|object|array)::', m): continue
        want = {tuple(x) for x in sf}
        if not all(f in files for _, f in want): continue
        c = [n for n in new if cls(n) == cls(m) and cur[n] == want]
        if len(c) == 1: out.setdefault(c[0], []).append(m)
    return {n: l[0] for n, l in out.items() if len(l) == 1}
def respell(x, ren):
    if isinstance(x, str):
        r = ren.get(x, x)
        return r if isinstance(r, str) else r[0] + '::' + r[1]
    if isinstance(x, list):
        if len(x) == 5 and x[0] == 'mem' and isinstance(x[4], str) and isinstance(ren.get(x[4]), tuple):
            c, n = ren[x[4]]
            return [x[0], x[1], respell(x[2], ren), n, c + '::' + n]
        return [respell(y, ren) for y in x]
    if isinstance(x, dict):
        short = lambda c, n: ren[c + '::' + n][1] if isinstance(ren.get(c + '::' + n), tuple) else n
        if x.get('k') == 'rec': x = dict(x, fields=[[short(x['name'], f[0])] + f[1:] for f in x['fields']])
        if x.get('inits'):
            c = x['name'].rpartition('::')[0]
            x = dict(x, inits=[[short(c, i[0])] + i[1:] for i in x['inits']])
        return {k: respell(v, ren) for k, v in x.items()}
    return x
