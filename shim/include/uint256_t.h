#pragma once
#include <uint128_t.h>
#include <utility>
class uint256_t {
public:
	uint128_t LO, UP;
	uint256_t() = default;
	uint256_t(const uint256_t&) = default;
	template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>> uint256_t(const T& x) : LO(x), UP(std::is_signed<T>::value && x < T(0) ? ~uint128_t() : uint128_t()) {}
	uint256_t(const uint128_t& x) : LO(x) {}
	uint256_t(const uint128_t& up, const uint128_t& lo) : LO(lo), UP(up) {}
	uint256_t(const std::string& s, uint8_t base) { for(char c : s) { int d = c >= '0' && c <= '9' ? c - '0' : (c | 32) >= 'a' ? (c | 32) - 'a' + 10 : 99; if(d >= base) throw std::invalid_argument("invalid digit"); *this = *this * uint256_t(base) + uint256_t(d); } }
	uint256_t& operator=(const uint256_t&) = default;
	uint128_t lower() const { return LO; } uint128_t upper() const { return UP; }
	operator bool() const { return LO.v || UP.v; }
	operator uint8_t() const { return uint8_t(LO.v); } operator uint16_t() const { return uint16_t(LO.v); } operator uint32_t() const { return uint32_t(LO.v); } operator uint64_t() const { return uint64_t(LO.v); }
	operator uint128_t() const { return LO; }
	explicit operator int64_t() const { return int64_t(LO.v); } explicit operator int32_t() const { return int32_t(LO.v); } 
	int cmp(const uint256_t& o) const { return UP.v != o.UP.v ? (UP.v < o.UP.v ? -1 : 1) : LO.v != o.LO.v ? (LO.v < o.LO.v ? -1 : 1) : 0; }
	uint256_t operator+(const uint256_t& o) const { uint256_t r; r.LO.v = LO.v + o.LO.v; r.UP.v = UP.v + o.UP.v + (r.LO.v < LO.v ? 1 : 0); return r; }
	uint256_t operator-(const uint256_t& o) const { uint256_t r; r.LO.v = LO.v - o.LO.v; r.UP.v = UP.v - o.UP.v - (LO.v < o.LO.v ? 1 : 0); return r; }
	uint256_t operator~() const { return uint256_t(~UP, ~LO); } bool operator!() const { return !bool(*this); } uint256_t operator-() const { return uint256_t() - *this; }
	uint256_t shl(unsigned n) const { if(n >= 256) return uint256_t(); if(n == 0) return *this; if(n >= 128) return uint256_t(uint128_t::raw(LO.v << (n - 128)), uint128_t()); return uint256_t(uint128_t::raw(UP.v << n | LO.v >> (128 - n)), uint128_t::raw(LO.v << n)); }
	uint256_t shr(unsigned n) const { if(n >= 256) return uint256_t(); if(n == 0) return *this; if(n >= 128) return uint256_t(uint128_t(), uint128_t::raw(UP.v >> (n - 128))); return uint256_t(uint128_t::raw(UP.v >> n), uint128_t::raw(LO.v >> n | UP.v << (128 - n))); }
	uint256_t operator*(const uint256_t& o) const { uint256_t r; for(int i = 0; i < 256; ++i) { if(o.bit(i)) r = r + shl(i); } return r; }
	bool bit(int i) const { return i < 128 ? (LO.v >> i) & 1 : (UP.v >> (i - 128)) & 1; }
	static std::pair<uint256_t, uint256_t> divmod(const uint256_t& a, const uint256_t& b) { if(!b) throw std::domain_error("Error: division or modulus by 0"); uint256_t q, r; for(int i = 255; i >= 0; --i) { r = r.shl(1); if(a.bit(i)) r = r + uint256_t(1); if(r.cmp(b) >= 0) { r = r - b; q = q + uint256_t(1).shl(i); } } return {q, r}; }
	std::pair<uint256_t, uint256_t> divmod(const uint256_t& b) const { return divmod(*this, b); }
	uint256_t operator/(const uint256_t& o) const { return divmod(*this, o).first; }
	uint256_t operator%(const uint256_t& o) const { return divmod(*this, o).second; }
	uint256_t operator&(const uint256_t& o) const { return uint256_t(UP & o.UP, LO & o.LO); } uint256_t operator|(const uint256_t& o) const { return uint256_t(UP | o.UP, LO | o.LO); } uint256_t operator^(const uint256_t& o) const { return uint256_t(UP ^ o.UP, LO ^ o.LO); }
	uint256_t operator<<(const uint256_t& n) const { return n.UP.v || n.LO.v >= 256 ? uint256_t() : shl(unsigned(n.LO.v)); }
	uint256_t operator>>(const uint256_t& n) const { return n.UP.v || n.LO.v >= 256 ? uint256_t() : shr(unsigned(n.LO.v)); }
	uint256_t& operator++() { *this = *this + uint256_t(1); return *this; } uint256_t operator++(int) { auto t = *this; ++*this; return t; } uint256_t& operator--() { *this = *this - uint256_t(1); return *this; } uint256_t operator--(int) { auto t = *this; --*this; return t; }
#define U256_M(OP) template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>> uint256_t operator OP(const T& o) const { return *this OP uint256_t(o); } uint256_t operator OP(const uint128_t& o) const { return *this OP uint256_t(o); } template<typename T> uint256_t& operator OP##=(const T& o) { *this = *this OP uint256_t(o); return *this; }
	U256_M(+) U256_M(-) U256_M(*) U256_M(/) U256_M(%) U256_M(&) U256_M(|) U256_M(^) U256_M(<<) U256_M(>>)
#define U256_C(OP) bool operator OP(const uint256_t& o) const { return cmp(o) OP 0; } template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>> bool operator OP(const T& o) const { return cmp(uint256_t(o)) OP 0; } bool operator OP(const uint128_t& o) const { return cmp(uint256_t(o)) OP 0; }
	U256_C(==) U256_C(!=) U256_C(<) U256_C(>) U256_C(<=) U256_C(>=)
	uint16_t bits() const { for(int i = 255; i >= 0; --i) if(bit(i)) return i + 1; return 0; }
	std::string str(uint8_t base = 10, unsigned len = 0) const { std::string s; auto t = *this; do { auto q = divmod(t, uint256_t(base)); int d = int(uint64_t(q.second)); s.push_back(d < 10 ? '0' + d : 'a' + d - 10); t = q.first; } while(bool(t)); while(s.size() < len) s.push_back('0'); std::reverse(s.begin(), s.end()); return s; }
};
#define U256_F(OP) template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>> uint256_t operator OP(const T& a, const uint256_t& b) { return uint256_t(a) OP b; } inline uint256_t operator OP(const uint128_t& a, const uint256_t& b) { return uint256_t(a) OP b; }
U256_F(+) U256_F(-) U256_F(*) U256_F(/) U256_F(%) U256_F(&) U256_F(|) U256_F(^)
#define U256_G(OP) template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>> bool operator OP(const T& a, const uint256_t& b) { return uint256_t(a) OP b; } inline bool operator OP(const uint128_t& a, const uint256_t& b) { return uint256_t(a) OP b; }
U256_G(==) U256_G(!=) U256_G(<) U256_G(>) U256_G(<=) U256_G(>=)
static const uint256_t uint256_0 = 0; static const uint256_t uint256_1 = 1; static const uint256_t uint256_max = ~uint256_t();
static const uint128_t uint128_max = ~uint128_t(); static const uint128_t uint128_0; static const uint128_t uint128_1 = 1;
inline std::ostream& operator<<(std::ostream& o, const uint256_t& v) { return o << v.str(10); }
