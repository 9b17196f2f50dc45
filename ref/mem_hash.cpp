#include <stdint.h>
#include <string.h>
#include <stdexcept>
#include "sha2_const.h"
#include "mem_hash.h"
void gen_mem_array(uint32_t* mem, const uint8_t* key, const uint32_t mem_size)
{
	if(mem_size & 31) throw std::logic_error("mem_size % 32 != 0");
	ref::gen_mem(mem, key, mem_size);
}
void calc_mem_hash(uint32_t* mem, uint8_t* hash, const int num_iter) { ref::mem_hash(mem, hash, num_iter); }
