import ircheck, os, facts
def _ref(name): return open(os.path.join(ircheck.REFDIR, name)).read()

def C07(c):
    """memory-hard plot hash"""
    ir = ircheck.IR(c)
    pre = '#include "mem_hash.h"\n'
    I = [('gen_mem_array', 'a table of %d words' % n, 'mmx::pos::gen_mem_array((uint32_t*)out, in, %d);' % n, 'ref::gen_mem((uint32_t*)out, in, %d);' % n) for n in (0, 32, 64, 96)]
    I += [('calc_mem_hash', '%d mixing rounds' % n, 'mmx::pos::calc_mem_hash((uint32_t*)in, out, %d);' % n, 'ref::mem_hash((uint32_t*)in, out, %d);' % n) for n in (0, 1, 2, 40, 260)]
    ir.equal('src/pos/mem_hash.cpp', [('gen_mem_array', 'gen_mem_array', 'gen_mem_array'), ('calc_mem_hash', 'calc_mem_hash', 'calc_mem_hash')], _ref('mem_hash.cpp'),
             'the memory-hard hash as specified', instances=I, ipre=pre)
    ir.done()

# --- symbol code of plot deltas
def code(sym):
    """bits, length: sym / 3 times the pair 11, then sym % 3"""
    return ((1 << 2 * (sym // 3)) - 1) | (sym % 3) << 2 * (sym // 3), 2 * (sym // 3) + 2
def stream(syms):
    v = n = 0
    for s in syms:
        b, l = code(s); v |= b << n; n += l
    return v, n
def words(v, n): return [(v >> 64 * i) & (2**64 - 1) for i in range((n + 63) // 64)]
def put(off, val): return '{ uint64_t v_ = %s; memcpy(out + %d, &v_, 8); } ' % (val, 8 * off)
def sequences():
    S = [[], [0], [47], [1, 2, 0], [0] * 31, [0] * 32, [0] * 33, [3] * 16, [47, 47], [47, 47, 47], [0, 47, 47], list(range(0, 12)), list(range(36, 48)), [5, 40, 0, 44, 2, 47, 1, 30, 9, 0, 0, 46]]
    # every bit position modulo 64 meets every code length
    x = 1
    for k in range(6):
        l = []
        for i in range(14): x = (x * 1103515245 + 12345) % 2**31; l.append((x >> 16) % 48)
        S.append(l)
    for lead in (0, 13, 15, 16, 17, 25, 29, 30, 31): S.append([0] * lead + [45, 1, 47])
    for a in (3, 9, 18, 27, 39): S.append([a] * 10)
    return S

def C10(c):
    """plot delta encoding"""
    ir = ircheck.IR(c)
    I = []
    for s in range(48):
        b, l = code(s)
        I.append(('encode_symbol', 'symbol %d' % s, 'auto r = mmx::pos::encode_symbol(%d); ' % s + put(0, 'r.first') + put(1, 'r.second'), put(0, '%dull' % b) + put(1, l)))
    for s in (48, 49, 50, 51, 96, 128, 255):
        I.append(('encode_symbol', 'symbol %d (rejected)' % s, 'auto r = mmx::pos::encode_symbol(%d); ' % s + put(0, 'r.first') + put(1, 'r.second'), ''))
    for s in range(48):
        b, l = code(s)
        I.append(('decode_symbol', 'the code of symbol %d followed by any bits' % s, 'uint32_t x; memcpy(&x, in, 4); auto r = mmx::pos::decode_symbol(%s); ' % ('(x << %d) | %du' % (l, b) if l < 32 else '%du' % b) + put(0, 'r.first') + put(1, 'r.second'), put(0, s) + put(1, l)))
    I.append(('decode_symbol', 'sixteen times 11', 'auto r = mmx::pos::decode_symbol(0xffffffffu); ' + put(0, 'r.second'), put(0, 32)))
    for n, q in enumerate(sequences()):
        v, l = stream(q); w = words(v, l)
        I.append(('encode', 'the sequence %s' % q, 'std::vector<uint8_t> s{%s}; uint64_t n = 99; auto r = mmx::pos::encode(s, n); ' % ', '.join(map(str, q)) + put(0, 'n') + put(1, 'r.size()') + ''.join(put(2 + i, 'r[%d]' % i) for i in range(len(w))),
                  put(0, l) + put(1, len(w)) + ''.join(put(2 + i, '%dull' % x) for i, x in enumerate(w))))
        for off, junk in ((0, 0), (0, 2**64 - 1), (7 * n % 64, 0x9e3779b97f4a7c15), (64 + n, 3)):
            x = (v << off) | (junk << (off + l)) | (0x5555555555555555555555555555555555 & ((1 << off) - 1)); w2 = words(x, off + l)
            b = 'std::vector<uint64_t> b{%s}; auto r = mmx::pos::decode(b, %d, %d); ' % (', '.join('%dull' % y for y in w2), len(q), off) + put(0, 'r.size()') + ''.join(put(1 + i, 'r[%d]' % i) for i in range(len(q)))
            I.append(('decode', 'the stream of %s at bit %d' % (q, off), b, put(0, len(q)) + ''.join(put(1 + i, s) for i, s in enumerate(q))))
    for k in (2**26, 2**32 + 1):
        q = [1, 47, 33, 0, 2]; v, l = stream(q); w2 = words(v << 61, l + 61)
        I.append(('decode', 'a stream at bit %d' % (64 * k + 61), 'std::vector<uint64_t> b{%s}; b.skip(%dull); auto r = mmx::pos::decode(b, %d, %dull); ' % (', '.join('%dull' % y for y in w2), k, len(q), 64 * k + 61) + put(0, 'r.size()') + ''.join(put(1 + i, 'r[%d]' % i) for i in range(len(q))), put(0, len(q)) + ''.join(put(1 + i, s) for i, s in enumerate(q))))
    for q, more, off in (([], 1, 0), ([1] * 32, 1, 0), ([47, 47], 1, 0), ([0] * 31 + [2], 2, 0), ([], 1, 64), ([5], 1, 64)):
        v, l = stream(q); w2 = words(v << off, max(off + l, 0))
        if (off + l) % 64 or q == [5]: 
            w2 = w2[:-1] if q == [5] else w2
        I.append(('decode', 'a stream of %d words read %d symbols past its end (rejected)' % (len(w2), more), 'std::vector<uint64_t> b{%s}; auto r = mmx::pos::decode(b, %d, %d); ' % (', '.join('%dull' % y for y in w2), len(q) + more, off) + put(0, 'r.size()'), ''))
    for r in range(1, 32):
        for s in (45, 47) if r < 31 else (45,):
            off = r % 2; lead = [1] * ((64 - off - r) // 2)
            v, l = stream(lead + [s]); w2 = words(v << off, off + l)[:1]
            I.append(('decode', 'a stream which ends after %d bits of the code of %d (rejected)' % (r, s), 'std::vector<uint64_t> b{%dull}; auto r = mmx::pos::decode(b, %d, %d); ' % (w2[0], len(lead) + 1, off) + put(0, 'r.size()'), ''))
    V = [os.path.join(ircheck.REFDIR, 'vec')]
    sym = [i for i in I if i[0].endswith('symbol')]
    ir.equal('src/pos/encoding.cpp', [], '', 'the delta code', instances=sym, include=V, onlylab='store to arg0')
    ir.equal('src/pos/encoding.cpp', [('encode', '6encodeE', '6encodeE'), ('decode', '6decodeE', '6decodeE')], _ref('encoding.cpp'), 'the delta code', keep=['encode_symbol', 'decode_symbol'],
             instances=[i for i in I if i not in sym], include=V, onlylab='store to arg0')
    ir.done()

def C08(c):
    """bit packing"""
    ir = ircheck.IR(c)
    I = []
    for n in range(64):
        if n < 32: I.append(('rotl_32', 'rotation by %d' % n, 'uint32_t x; memcpy(&x, in, 4); x = mmx::pos::rotl_32(x, %d); memcpy(out, &x, 4);' % n, 'uint32_t x, y = 0; memcpy(&x, in, 4); for(int i = 0; i < 32; ++i) y |= ((x >> i) & 1u) << ((i + %d) & 31); memcpy(out, &y, 4);' % n))
        I.append(('rotl_64', 'rotation by %d' % n, 'uint64_t x; memcpy(&x, in, 8); x = mmx::pos::rotl_64(x, %d); memcpy(out, &x, 8);' % n, 'uint64_t x, y = 0; memcpy(&x, in, 8); for(int i = 0; i < 64; ++i) y |= ((x >> i) & 1ull) << ((i + %d) & 63); memcpy(out, &y, 8);' % n))
    for k in (2, 4, 8):
        I.append(('bswap_%d' % (8 * k), 'byte reversal', 'uint%d_t x; memcpy(&x, in, %d); x = bswap_%d(x); memcpy(out, &x, %d);' % (8 * k, k, 8 * k, k), 'for(int i = 0; i < %d; ++i) out[i] = in[%d - i];' % (k, k - 1)))
    quick = c.tier != 'thorough'
    lens = (0, 1, 5, 8, 31, 32, 33, 48, 63, 64) if quick else range(65)
    offs = (0, 1, 7, 16, 31, 32, 33, 47, 56, 62, 63, 64, 127, 64 * 2**26 + 9, 2**38 + 61) if quick else list(range(130)) + [64 * 2**26 + 9, 2**38 + 61]
    for n in lens:
        for o in offs:
            b = o // 64 * 8 - (o // 64 * 8 if o > 1000 else 0)
            bias = o // 64 * 8 - b
            I.append(('write_bits', '%d bits at bit %d' % (n, o), 'uint64_t v; memcpy(&v, in, 8); v = mmx::pos::write_bits((uint64_t*)(out - %dull), v, %dull, %d); memcpy(in + 64, &v, 8);' % (bias, o, n),
                      'uint64_t v, w; memcpy(&v, in, 8); for(int i = 0; i < %d; ++i) { uint64_t j = %dull + i; memcpy(&w, out + j / 64 * 8, 8); w |= ((v >> i) & 1ull) << (j %% 64); memcpy(out + j / 64 * 8, &w, 8); } v = %dull; memcpy(in + 64, &v, 8);' % (n, o - bias * 8, o + n)))
            I.append(('read_bits', '%d bits at bit %d' % (n, o), 'uint64_t v = mmx::pos::read_bits((const uint64_t*)(in - %dull), %dull, %d); memcpy(out, &v, 8);' % (bias, o, n),
                      'uint64_t v = 0, w; for(int i = 0; i < %d; ++i) { uint64_t j = %dull + i; memcpy(&w, in + j / 64 * 8, 8); v |= ((w >> (j %% 64)) & 1ull) << i; } memcpy(out, &v, 8);' % (n, o - bias * 8)))
    ir.equal('include/mmx/pos/util.h', [], '', 'the bit operation', instances=I)
    ir.done()

def C09(c):
    """line points"""
    ir = ircheck.IR(c)
    w = """#include <mmx/pos/encoding.h>
extern "C" uint64_t g_xenc(uint32_t x) { return mmx::pos::GetXEnc(x); }
extern "C" uint64_t g_lp1(uint64_t i) { auto r = mmx::pos::LinePointToSquare(i); return r.first | uint64_t(r.second) << 32; }
extern "C" uint64_t g_lp2(uint64_t i) { auto r = mmx::pos::LinePointToSquare2(i); return r.first | uint64_t(r.second) << 32; }
extern "C" uint64_t g_lp3(uint64_t i) { auto r = mmx::pos::LinePointToSquare3(i); return r.first | uint64_t(r.second) << 32; }
"""
    T = lambda x: x * (x - 1) // 2
    def lp(i):
        lo, hi = 0, 2**32 - 1
        while lo < hi:
            m = (lo + hi + 1) // 2
            if T(m) <= i: lo = m
            else: hi = m - 1
        return lo, i - T(lo)
    I = []
    X = sorted({v for k in range(33) for v in (2**k - 2, 2**k - 1, 2**k, 2**k + 1, 2**k * 3 // 2, 2**k * 5 // 7) if 0 <= v < 2**32})
    for x in X: I.append(('GetXEnc', 'x = %d' % x, put(0, 'mmx::pos::GetXEnc(%du)' % x), put(0, '%dull' % T(x))))
    for x in X:
        if x < 2: continue
        for i in {T(x), T(x) - 1, T(x) + 1, T(x) + x // 2, T(x) + x - 1}:
            a, b = lp(i)
            for fn, (p, q) in (('LinePointToSquare', (a, b)), ('LinePointToSquare3', (a, b) if b else (a - 1, a - 1)), ('LinePointToSquare2', (a - 1, b - 1) if b else (a - 2, a - 2))):
                I.append((fn, 'index %d' % i, 'auto r = mmx::pos::%s(%dull); ' % (fn, i) + put(0, 'r.first') + put(1, 'r.second'), put(0, p % 2**32) + put(1, q % 2**32)))
    if c.tier != 'thorough': I = [x for n, x in enumerate(I) if n % 4 == 0 or x[0] == 'GetXEnc']
    ir.equal('include/mmx/pos/encoding.h', [('GetXEnc', 'g_xenc', 'g_xenc'), ('LinePointToSquare', 'g_lp1', 'g_lp1'), ('LinePointToSquare2', 'g_lp2', 'g_lp2'), ('LinePointToSquare3', 'g_lp3', 'g_lp3')],
             _ref('linepoint.cpp'), 'the inverse of x (x - 1) / 2 + y', repo_text=w, instances=I)
    ir.done()
