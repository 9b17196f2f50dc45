#include "sha2.h"
static inline void step(uint8_t* h) { uint8_t t[32]; ref::hash<uint32_t>(t, h, 32); memcpy(h, t, 32); }
typedef uint32_t v4 __attribute__((vector_size(16)));
static inline v4 load(const uint8_t* p) { return v4{ref::be<uint32_t>(p), ref::be<uint32_t>(p + 4), ref::be<uint32_t>(p + 8), ref::be<uint32_t>(p + 12)}; }
static inline void save(uint8_t* p, v4 x) { for(int i = 0; i < 4; ++i) ref::put_be<uint32_t>(p + 4 * i, x[i]); }
static inline void step(v4& x, v4& y) { uint8_t h[32]; save(h, x); save(h + 16, y); step(h); x = load(h); y = load(h + 16); }
void one(uint8_t* hash, const uint64_t n)
{
	if(n <= 0) return;
	v4 x = load(hash), y = load(hash + 16);
	for(uint64_t i = 0; i < n; ++i) step(x, y);
	save(hash, x); save(hash + 16, y);
}
void two(uint8_t* hash, const uint64_t n)
{
	if(n <= 0) return;
	v4 x = load(hash), y = load(hash + 16), z = load(hash + 32), w = load(hash + 48);
	for(uint64_t i = 0; i < n; ++i) { step(x, y); step(z, w); }
	save(hash, x); save(hash + 16, y); save(hash + 32, z); save(hash + 48, w);
}
