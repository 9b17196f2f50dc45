#define private public
#include <hmac_sha512.h>
#undef private
#include "sha2.h"
namespace sha512 { static __attribute__((noinline)) void Transform(uint64_t* s, const unsigned char* chunk) { ref::block(s, chunk); } }

SHA512::SHA512() { bytes = 0; ref::init(s); }
SHA512& SHA512::Reset() { ref::init(s); bytes = 0; return *this; }
SHA512& SHA512::Write(const unsigned char* data, size_t len)
{
	const unsigned char* const end = data + len;
	size_t fill = bytes % 128;
	if(fill && fill + len >= 128) {
		const size_t n = 128 - fill;
		memcpy(buf + fill, data, n);
		bytes += n;
		data += n;
		sha512::Transform(s, buf);
		fill = 0;
	}
	for(; end - data >= 128; data += 128) {
		sha512::Transform(s, data);
		bytes += 128;
	}
	if(end > data) {
		memcpy(buf + fill, data, end - data);
		bytes += end - data;
	}
	return *this;
}
void SHA512::Finalize(unsigned char hash[64])
{
	static const unsigned char pad[128] = {0x80};
	unsigned char len[16] = {};
	ref::put_be<uint64_t>(len + 8, bytes * 8);
	Write(pad, 1 + ((239 - (bytes % 128)) % 128));
	Write(len, 16);
	for(int i = 0; i < 8; ++i) ref::put_be<uint64_t>(hash + 8 * i, s[i]);
}
