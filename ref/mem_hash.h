// memory-hard hash of the proof of space: ChaCha-style stream fill, then data dependent mixing
#pragma once
#include "sha2_const.h"
#include <stdint.h>
#include <string.h>
namespace ref {
static inline uint32_t rol(uint32_t v, int n) { n &= 31; return (v << n) | (v >> ((32 - n) & 31)); }
static inline void quarter(uint32_t& a, uint32_t& b, uint32_t& c, uint32_t& d)
{
	a += b; d = rol(d ^ a, 16);
	c += d; b = rol(b ^ c, 12);
	a += b; d = rol(d ^ a, 8);
	c += d; b = rol(b ^ c, 7);
}
static inline void gen_mem(uint32_t* mem, const uint8_t* key, const uint32_t size)
{
	uint32_t s[32] = {};
	memcpy(s, key, 64);
	for(int i = 0; i < 16; ++i) s[16 + i] = K256[i];
	uint32_t c = 0, b = 0;
	for(uint32_t i = 0; i < size; i += 32) {
		for(int j = 0; j < 4; ++j)
			for(int k = 0; k < 16; ++k) quarter(s[k], b, c, s[16 + k]);
		for(int k = 0; k < 32; ++k) mem[i + k] = s[k];
	}
}
static inline void mem_hash(uint32_t* mem, uint8_t* hash, const int n)
{
	uint32_t s[32];
	for(int i = 0; i < 32; ++i) s[i] = mem[31 * 32 + i];
	for(int t = 0; t < n; ++t) {
		uint32_t sum = 0;
		for(int i = 0; i < 32; ++i) sum += rol(s[i], i);
		const uint32_t dir = sum * (1 + (1 << 11) + (1 << 22));
		const uint32_t bits = (dir >> 22) & 31, row = dir >> 27;
		for(int i = 0; i < 32; ++i) s[i] += rol(mem[row * 32 + ((t + i) & 31)], bits) ^ sum;
		for(int i = 0; i < 32; ++i) mem[row * 32 + i] ^= s[i];
	}
	memcpy(hash, s, 128);
}
}
