// Reference SHA-2 written from FIPS 180-4 (constants come from sha2_const.h, generated from their definition).
#pragma once
#include "sha2_const.h"
namespace ref {

template<typename W> struct P;
template<> struct P<uint32_t> { static constexpr int R = 64, S0[3] = {2, 13, 22}, S1[3] = {6, 11, 25}, s0[3] = {7, 18, 3}, s1[3] = {17, 19, 10}; static constexpr uint32_t K(int i) { return K256[i]; } static constexpr uint32_t H(int i) { return H256[i]; } };
template<> struct P<uint64_t> { static constexpr int R = 80, S0[3] = {28, 34, 39}, S1[3] = {14, 18, 41}, s0[3] = {1, 8, 7}, s1[3] = {19, 61, 6}; static constexpr uint64_t K(int i) { return K512[i]; } static constexpr uint64_t H(int i) { return H512[i]; } };

template<typename W> static inline W ror(W x, int n) { return (x >> n) | (x << (8 * sizeof(W) - n)); }
template<typename W> static inline W be(const uint8_t* p) { W r = 0; for(unsigned i = 0; i < sizeof(W); ++i) r = (r << 8) | p[i]; return r; }
template<typename W> static inline void put_be(uint8_t* p, W x) { for(unsigned i = 0; i < sizeof(W); ++i) p[i] = uint8_t(x >> (8 * (sizeof(W) - 1 - i))); }

template<typename W> static inline void block(W* s, const uint8_t* in)
{
	W w[P<W>::R];
	for(int t = 0; t < 16; ++t) w[t] = be<W>(in + t * sizeof(W));
	for(int t = 16; t < P<W>::R; ++t) {
		const W a = ror(w[t - 15], P<W>::s0[0]) ^ ror(w[t - 15], P<W>::s0[1]) ^ (w[t - 15] >> P<W>::s0[2]);
		const W b = ror(w[t - 2], P<W>::s1[0]) ^ ror(w[t - 2], P<W>::s1[1]) ^ (w[t - 2] >> P<W>::s1[2]);
		w[t] = b + w[t - 7] + a + w[t - 16];
	}
	W a = s[0], b = s[1], c = s[2], d = s[3], e = s[4], f = s[5], g = s[6], h = s[7];
	for(int t = 0; t < P<W>::R; ++t) {
		const W t1 = h + (ror(e, P<W>::S1[0]) ^ ror(e, P<W>::S1[1]) ^ ror(e, P<W>::S1[2])) + ((e & f) ^ (~e & g)) + P<W>::K(t) + w[t];
		const W t2 = (ror(a, P<W>::S0[0]) ^ ror(a, P<W>::S0[1]) ^ ror(a, P<W>::S0[2])) + ((a & b) ^ (a & c) ^ (b & c));
		h = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
	}
	s[0] += a; s[1] += b; s[2] += c; s[3] += d; s[4] += e; s[5] += f; s[6] += g; s[7] += h;
}
template<typename W> static inline void init(W* s) { for(int i = 0; i < 8; ++i) s[i] = P<W>::H(i); }

// one-shot hash of a message of constant length N
template<typename W> static inline void hash(uint8_t* out, const uint8_t* in, const uint64_t N)
{
	constexpr unsigned B = 16 * sizeof(W);
	W s[8];
	init(s);
	uint64_t i = 0;
	for(; i + B <= N; i += B) block(s, in + i);
	uint8_t last[2 * B] = {};
	const uint64_t r = N - i;
	for(uint64_t k = 0; k < r; ++k) last[k] = in[i + k];
	last[r] = 0x80;
	const uint64_t nb = r + 1 + 2 * sizeof(W) <= B ? 1 : 2;
	put_be<uint64_t>(last + nb * B - 8, N * 8);
	for(uint64_t k = 0; k < nb; ++k) block(s, last + k * B);
	for(int k = 0; k < 8; ++k) put_be<W>(out + k * sizeof(W), s[k]);
}

// HMAC-SHA512 (RFC 2104) over a constant key length and message length
static inline void hmac512(uint8_t* out, const uint8_t* key, const uint64_t kl, const uint8_t* msg, const uint64_t N)
{
	uint8_t k[128] = {};
	if(kl > 128) hash<uint64_t>(k, key, kl);
	else for(uint64_t i = 0; i < kl; ++i) k[i] = key[i];
	uint8_t a[128 + 1024], b[128 + 64];
	for(int i = 0; i < 128; ++i) { a[i] = k[i] ^ 0x36; b[i] = k[i] ^ 0x5c; }
	for(uint64_t i = 0; i < N; ++i) a[128 + i] = msg[i];
	hash<uint64_t>(b + 128, a, 128 + N);
	hash<uint64_t>(out, b, 192);
}
}
