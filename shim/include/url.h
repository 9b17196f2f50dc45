#pragma once
#include <string>
#include <map>
namespace Url { class Url { public: Url(const std::string&) {} Url& setQuery(const std::map<std::string, std::string>&) { return *this; } std::string str() const { return ""; } }; }
