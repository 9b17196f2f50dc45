#include <stdint.h>
// x (x - 1) / 2 without overflow: the even one of the factors is halved
static uint64_t tri(uint32_t x)
{
	uint32_t a = x, b = x - 1;
	if(x & 1) b >>= 1; else a >>= 1;
	return uint64_t(a) * b;
}
static uint32_t root(uint64_t i)
{
	uint32_t x = 0;
	for(int k = 31; k >= 0; --k) { const uint32_t y = x + (1u << k); if(tri(y) <= i) x = y; }
	return x;
}
extern "C" uint64_t g_xenc(uint32_t x) { return tri(x); }
extern "C" uint64_t g_lp1(uint64_t i) { const uint32_t x = root(i); return x | uint64_t(uint32_t(i - tri(x))) << 32; }
extern "C" uint64_t g_lp3(uint64_t i) { uint32_t x = root(i), y = i - tri(x); if(!y) { --x; y = x; } return x | uint64_t(y) << 32; }
extern "C" uint64_t g_lp2(uint64_t i) { uint32_t x = root(i), y = i - tri(x); if(!y) { --x; y = x; } return uint32_t(x - 1) | uint64_t(uint32_t(y - 1)) << 32; }
