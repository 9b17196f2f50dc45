#pragma once
#include <string>
#include <vector>
namespace bech32 {
enum class Encoding { None, Invalid, Bech32, Bech32m };
inline constexpr Encoding Bech32 = Encoding::Bech32, Bech32m = Encoding::Bech32m;
struct DecodedResult { Encoding encoding = Encoding::None; std::string hrp; std::vector<unsigned char> dp; };
std::string encode(const std::string& hrp, const std::vector<unsigned char>& dp);
DecodedResult decode(const std::string& s);
enum limits { };
}
