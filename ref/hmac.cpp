#define private public
#include <hmac_sha512.h>
#undef private
#include <string.h>
HMAC_SHA512::HMAC_SHA512(const unsigned char* key, size_t keylen)
{
	unsigned char k[128];
	if(keylen <= 128) {
		memcpy(k, key, keylen);
		memset(k + keylen, 0, 128 - keylen);
	} else {
		SHA512 h;
		h.Write(key, keylen).Finalize(k);
		memset(k + 64, 0, 64);
	}
	for(int i = 0; i < 128; ++i) k[i] ^= 0x5c;
	outer.Write(k, 128);
	for(int i = 0; i < 128; ++i) k[i] ^= 0x5c ^ 0x36;
	inner.Write(k, 128);
}
void HMAC_SHA512::Finalize(unsigned char hash[64])
{
	unsigned char t[64];
	inner.Finalize(t);
	outer.Write(t, 64).Finalize(hash);
}
