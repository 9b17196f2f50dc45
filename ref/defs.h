// definitions the specialised instances are compared with
#pragma once
#include "sha2.h"
namespace ref {
template<typename W> static inline void iterate(uint8_t* h, uint64_t n) { for(uint64_t i = 0; i < n; ++i) { uint8_t t[32]; hash<uint32_t>(t, h, 32); memcpy(h, t, 32); } }
}
