#include "sha2.h"
#include <stddef.h>
static __attribute__((noinline)) void compress_digest(uint32_t* state, const uint8_t* input, size_t blocks)
{
#ifdef PACKED
	// the state travels as {F, E, B, A} and {H, G, D, C} (low lane first)
	typedef uint32_t v4 __attribute__((vector_size(16)));
	v4 x = {state[5], state[4], state[1], state[0]}, y = {state[7], state[6], state[3], state[2]};
	for(; blocks > 0; --blocks) {
		uint32_t s[8] = {x[3], x[2], y[3], y[2], x[1], x[0], y[1], y[0]};
		ref::block(s, input);
		x = v4{s[5], s[4], s[1], s[0]};
		y = v4{s[7], s[6], s[3], s[2]};
		input += 64;
	}
	state[0] = x[3]; state[1] = x[2]; state[2] = y[3]; state[3] = y[2]; state[4] = x[1]; state[5] = x[0]; state[6] = y[1]; state[7] = y[0];
#else
	typedef uint32_t v4 __attribute__((vector_size(16)));
	v4 x, y;
	memcpy(&x, state, 16);
	memcpy(&y, state + 4, 16);
	for(; blocks > 0; --blocks) {
		uint32_t s[8];
		memcpy(s, &x, 16); memcpy(s + 4, &y, 16);
		ref::block(s, input);
		memcpy(&x, s, 16); memcpy(&y, s + 4, 16);
		input += 64;
	}
	memcpy(state, &x, 16);
	memcpy(state + 4, &y, 16);
#endif
}
#ifndef NAME
#define NAME sha256_ni
#endif
void NAME(uint8_t* out, const uint8_t* in, const uint64_t length)
{
	uint32_t state[8];
	ref::init(state);
	const uint64_t n = length / 64;
	if(n) compress_digest(state, in, n);
	const uint64_t r = length % 64;
	const uint64_t nb = (r + 9 + 63) / 64;
	uint8_t last[128] = {};
	memcpy(last, in + n * 64, r);
	memset(last + r, 0, 128 - r);
	last[r] = 0x80;
	uint64_t bits; ref::put_be<uint64_t>((uint8_t*)&bits, length * 8);
	memcpy(last + nb * 64 - 8, &bits, 8);
	compress_digest(state, last, nb);
	for(int k = 0; k < 8; ++k) ref::put_be<uint32_t>(out + 4 * k, state[k]);
}
