#include <vector>
#include <stdexcept>
#include <stdint.h>
namespace mmx { namespace pos {
typedef std::pair<uint32_t, uint32_t> res_t;
// 0, 1, 2 are coded as themselves in two bits; every further multiple of three is one leading pair 11
res_t encode_symbol(const uint8_t sym)
{
	if(sym < 3) return res_t(sym, 2);
	const uint32_t q = sym / 3;
	if(q > 15) throw std::logic_error("symbol out of range");
	return res_t((uint32_t(-1) >> (32 - 2 * q)) | uint32_t(sym % 3) << (2 * q), 2 * q + 2);
}
res_t decode_symbol(const uint32_t bits)
{
	for(uint32_t q = 0; q < 16; ++q) {
		const uint32_t m = (bits >> (2 * q)) & 3;
		if(m != 3) return res_t(3 * q + m, 2 * q + 2);
	}
	return res_t(48, 32);
}
std::vector<uint64_t> encode(const std::vector<uint8_t>& in, uint64_t& total)
{
	std::vector<uint64_t> out;
	uint32_t pos = 0;
	uint64_t word = 0;
	total = 0;
	for(auto sym : in) {
		const auto c = encode_symbol(sym);
		word |= uint64_t(c.first) << pos;
		const uint32_t end = pos + c.second;
		if(end >= 64) { out.push_back(word); word = 0; }
		if(end > 64) word = c.first >> (64 - pos);
		pos = end % 64;
		total += c.second;
	}
	if(pos) out.push_back(word);
	return out;
}
std::vector<uint8_t> decode(const std::vector<uint64_t>& in, const uint64_t count, const uint64_t start)
{
	std::vector<uint8_t> out;
	uint32_t have = 0;
	uint64_t pos = start, word = 0;
	while(out.size() < count) {
		while(have < 32) {
			const uint64_t i = pos / 64;
			if(i < in.size()) {
				const uint32_t n = std::min<uint32_t>(64 - (pos % 64), 64 - have);
				word |= (in[i] >> (pos % 64)) << have;
				pos += n; have += n;
			} else if(have == 0) throw std::logic_error("bit stream underflow");
			else break;
		}
		const auto s = decode_symbol(word);
		out.push_back(s.first);
		if(s.second > have) throw std::logic_error("symbol decode error");
		word >>= s.second;
		have -= s.second;
	}
	return out;
}
}}
