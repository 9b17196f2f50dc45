prop('C01', 'SHA-512 is the standard hash however the message is split',
 'For every message and every way of writing it in pieces, the 64-byte digest is SHA-512 (FIPS 180-4) of the concatenation; the size counter is the number of bytes written and a reset object starts over.',
 'inputs histories', 'all messages, all sequences of write calls', 'No test hashes anything with this class; block-boundary handling depends on length and split.',
 ['src/sha512.cpp', 'include/sha512.h'], [('block function, buffered writes, padding', 'src/sha512.cpp')], VG)
prop('C02', 'SHA-256 with x86 SHA instructions is the standard hash',
 'For every message of every length the accelerated SHA-256 returns the FIPS 180-4 digest.',
 'inputs', 'all messages and lengths', 'Never called by a stable test; padding differs per length modulo 64 and a wrong shuffle only shows on some inputs.',
 ['src/sha256_ni.cpp'], [('block function on SHA instructions', 'src/sha256_ni.cpp: compress_digest'), ('padding', 'src/sha256_ni.cpp: sha256_ni')], VG)
prop('C03', 'Iterated SHA-256 (proof of time) is the n-fold hash, single and paired',
 'Iterating on a 32-byte value n times yields SHA-256 applied n times, for every n including zero; the paired variant does so independently on each of its two halves.',
 'inputs', 'all start values, all iteration counts', 'The VDF verifier depends on it for millions of iterations; no stable test calls it.',
 ['src/sha256_ni_rec.cpp'], [('unrolled rounds with constant padding words', 'src/sha256_ni_rec.cpp')], VG)
prop('C04', 'Eight-way SHA-256 hashes every lane on its own',
 'The vectorised batch hash returns, for each of eight messages placed 64 bytes apart, the standard SHA-256 digest 32 bytes apart, for every message content and every length it accepts.',
 'inputs', 'all contents of the eight lanes, lengths 0 to 55', 'Not compiled by the test build; lanes interact through transposes.',
 ['src/sha256_avx2.cpp'], [('lane transposes and rounds', 'src/sha256_avx2.cpp')], VG, note='Lengths 0, 1, 8, 32, 44, 54, 55 with unconstrained contents.')
prop('C05', 'HMAC-SHA512 follows RFC 2104 for every key and message',
 'For every key length (shorter than, equal to and longer than a block) and every message, the tag is HMAC-SHA-512.',
 'inputs', 'all keys and messages', 'Wallet key derivation rests on it; no test covers keys longer than a block.',
 ['src/hmac_sha512.cpp', 'include/hmac_sha512.h'], [('inner/outer pads', 'src/hmac_sha512.cpp')], VG)
prop('C06', 'SHA-256 with ARM crypto instructions is the standard hash',
 'On ARM, single hashing of any message and the iterated and paired variants give the same results as the standard SHA-256 definition.',
 'inputs configurations', 'all messages, start values and iteration counts, on aarch64', 'The test machine is x86: this code is never even compiled for real there.',
 ['src/sha256_arm.cpp', 'src/sha256_arm_rec.cpp'], [('block function on ARMv8 SHA instructions', 'src/sha256_arm.cpp'), ('unrolled iteration', 'src/sha256_arm_rec.cpp')], VG)
prop('C07', 'The memory-hard plot hash is exactly the specified function',
 'For every key the table is the specified add-rotate-xor stream, a table size that is not a multiple of 32 words is refused, and the final hash and the updated table are the specified data-dependent mixing for every table content and number of rounds; no step depends on undefined shifts.',
 'inputs', 'all keys, table contents and round counts', 'Consensus: a single different bit forks the chain. The existing test needs CUDA or prints only.',
 ['src/pos/mem_hash.cpp', 'include/mmx/pos/mem_hash.h', 'include/mmx/pos/util.h'], [('quarter round', 'include/mmx/pos/util.h: MMXPOS_HASHROUND'), ('fill and mixing', 'src/pos/mem_hash.cpp')], VG)
prop('C08', 'Bit rotation, byte swap and bit-field access are exact at every position',
 'Rotating by any amount below the word size, reversing bytes, and writing or reading any field of up to 64 bits at any bit offset touch exactly the addressed bits: a write ORs the low bits of the value into place and returns the next offset, a read returns the stored bits and nothing above them.',
 'inputs', 'all values, all rotation amounts, all field widths 0..64 at all bit offsets', 'Fields crossing a word boundary and full-width shifts are corner cases no test enumerates.',
 ['include/mmx/pos/util.h'], [('rotl_32 / rotl_64 / bswap / write_bits / read_bits', 'include/mmx/pos/util.h')], VG, note='Exhaustive over widths and offsets modulo 64 in the thorough tier (and two offsets beyond 2^32), a grid in the quick tier; the values are unconstrained.')
prop('C09', 'Line-point decoding inverts x(x-1)/2 + y for every 64-bit index',
 'For every index the decoded pair (x, y) satisfies y < x and x(x-1)/2 + y = index; the variants that encode the diagonal as x = y return that pair shifted as documented; the triangular number is computed without overflow for every 32-bit x.',
 'inputs', 'all 64-bit indices and 32-bit x', 'Only random samples could be tried; errors sit at perfect triangular numbers and near 2^32.',
 ['include/mmx/pos/encoding.h'], [('integer square root by bisection', 'include/mmx/pos/encoding.h')], VG)
prop('C10', 'Plot delta streams decode to exactly the encoded symbols',
 'Every symbol 0 to 47 has its own prefix-free code, larger symbols are refused, encoding a sequence concatenates the codes and reports the bit count, and decoding any such stream at any bit offset returns the same symbols whatever bits follow; a stream that ends early is refused, never guessed.',
 'inputs', 'all symbol sequences, bit offsets and trailing bits', 'The test encodes a few random sequences at offset zero; refill logic depends on the code lengths met at each bit position.',
 ['src/pos/encoding.cpp', 'include/mmx/pos/encoding.h'], [('symbol code', 'src/pos/encoding.cpp: encode_symbol, decode_symbol'), ('word refill', 'src/pos/encoding.cpp: decode')], VG)
