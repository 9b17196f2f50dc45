#pragma once
#include <cstdint>
#include <string>
#include <stdexcept>
#include <algorithm>
#include <ostream>
#include <type_traits>
class uint256_t;
class uint128_t {
public:
	unsigned __int128 v = 0;
	uint128_t() = default;
	uint128_t(const uint128_t&) = default;
	template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>> uint128_t(const T& x) : v(x) {}
	uint128_t(uint64_t up, uint64_t lo) : v((unsigned __int128)up << 64 | lo) {}
	uint128_t(const std::string& s, uint8_t base) {
		for(char c : s) { int d = c >= '0' && c <= '9' ? c - '0' : (c | 32) >= 'a' ? (c | 32) - 'a' + 10 : 99; if(d >= base) throw std::invalid_argument("invalid digit"); v = v * base + d; }
	}
	static uint128_t raw(unsigned __int128 x) { uint128_t r; r.v = x; return r; }
	uint128_t& operator=(const uint128_t&) = default;
	template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>> uint128_t& operator=(const T& x) { v = x; return *this; }
	uint64_t lower() const { return uint64_t(v); } uint64_t upper() const { return uint64_t(v >> 64); }
	operator bool() const { return v != 0; }
	operator uint8_t() const { return uint8_t(v); } operator uint16_t() const { return uint16_t(v); } operator uint32_t() const { return uint32_t(v); } operator uint64_t() const { return uint64_t(v); }
	explicit operator int64_t() const { return int64_t(v); } explicit operator int32_t() const { return int32_t(v); } 
	uint128_t& operator++() { ++v; return *this; } uint128_t operator++(int) { auto t = *this; ++v; return t; } uint128_t& operator--() { --v; return *this; } uint128_t operator--(int) { auto t = *this; --v; return t; }
	uint128_t operator~() const { return raw(~v); } bool operator!() const { return !v; } uint128_t operator-() const { return raw(-v); }
	uint8_t bits() const { int n = 0; auto t = v; while(t) { t >>= 1; ++n; } return n; }
	std::string str(uint8_t base = 10, unsigned len = 0) const { std::string s; auto t = v; do { int d = int(t % base); s.push_back(d < 10 ? '0' + d : 'a' + d - 10); t /= base; } while(t); while(s.size() < len) s.push_back('0'); std::reverse(s.begin(), s.end()); return s; }
};
#define U128_OP(OP) \
	inline uint128_t operator OP(const uint128_t& a, const uint128_t& b) { return uint128_t::raw(a.v OP b.v); } \
	template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>> uint128_t operator OP(const uint128_t& a, const T& b) { return uint128_t::raw(a.v OP (unsigned __int128)b); } \
	template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>> uint128_t operator OP(const T& a, const uint128_t& b) { return uint128_t::raw((unsigned __int128)a OP b.v); } \
	inline uint128_t& operator OP##=(uint128_t& a, const uint128_t& b) { a.v = a.v OP b.v; return a; } \
	template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>> uint128_t& operator OP##=(uint128_t& a, const T& b) { a.v = a.v OP (unsigned __int128)b; return a; } \
	template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>> T& operator OP##=(T& a, const uint128_t& b) { a = T((unsigned __int128)a OP b.v); return a; }
#define U128_CMP(OP) \
	inline bool operator OP(const uint128_t& a, const uint128_t& b) { return a.v OP b.v; } \
	template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>> bool operator OP(const uint128_t& a, const T& b) { return a.v OP (unsigned __int128)b; } \
	template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>> bool operator OP(const T& a, const uint128_t& b) { return (unsigned __int128)a OP b.v; }
U128_OP(+) U128_OP(-) U128_OP(*) U128_OP(/) U128_OP(%) U128_OP(&) U128_OP(|) U128_OP(^)
U128_CMP(==) U128_CMP(!=) U128_CMP(<) U128_CMP(>) U128_CMP(<=) U128_CMP(>=)
inline uint128_t operator<<(const uint128_t& a, const uint128_t& b) { return b.v >= 128 ? uint128_t() : uint128_t::raw(a.v << int(b.v)); }
inline uint128_t operator>>(const uint128_t& a, const uint128_t& b) { return b.v >= 128 ? uint128_t() : uint128_t::raw(a.v >> int(b.v)); }
template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>> uint128_t operator<<(const uint128_t& a, const T& b) { return a << uint128_t(b); }
template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>> uint128_t operator>>(const uint128_t& a, const T& b) { return a >> uint128_t(b); }
template<typename T> uint128_t& operator<<=(uint128_t& a, const T& b) { a = a << b; return a; }
template<typename T> uint128_t& operator>>=(uint128_t& a, const T& b) { a = a >> b; return a; }
inline std::ostream& operator<<(std::ostream& o, const uint128_t& v) { return o << v.str(10); }
