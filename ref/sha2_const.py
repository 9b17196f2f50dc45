"""Round constants of FIPS 180-4 from their definition (fractional parts of cube / square roots of the first primes)."""
def primes(n):
    p, k = [], 2
    while len(p) < n:
        if all(k % q for q in p): p.append(k)
        k += 1
    return p
def root(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 2)
    while hi - lo > 1:
        m = (lo + hi) // 2
        if m ** k <= n: lo = m
        else: hi = m
    return lo
def frac(p, k, bits): return root(p << (k * bits), k) & ((1 << bits) - 1)
def header():
    o = '#pragma once\n#include <stdint.h>\n#include <stddef.h>\n#include <string.h>\nnamespace ref {\n'
    def arr(t, n, v, f): return 'static constexpr %s %s[%d] = {%s};\n' % (t, n, len(v), ', '.join(f % x for x in v))
    o += arr('uint32_t', 'K256', [frac(p, 3, 32) for p in primes(64)], '0x%xu')
    o += arr('uint32_t', 'H256', [frac(p, 2, 32) for p in primes(8)], '0x%xu')
    o += arr('uint64_t', 'K512', [frac(p, 3, 64) for p in primes(80)], '0x%xull')
    o += arr('uint64_t', 'H512', [frac(p, 2, 64) for p in primes(8)], '0x%xull')
    return o + '}\n'
