tus src/addr_t.cpp src/mnemonic.cpp src/hash_t.cpp src/pubkey_t.cpp src/signature_t.cpp
fn mmx::addr_t::to_string
never break(loop)
each at(%vector<unsignedchar>, 51) = u8(wide256(((1 & to_uint256()) * 16)))
each at(%vector<unsignedchar>, w64((-idx(51) + 50))) = u8((31 & fold((to_uint256() >> 1), (~ >> 5), 51)))
never throw …
value fold((to_uint256() >> 1), (~ >> 5), 51)
exit {did at(%vector<unsignedchar>, 51) = u8(wide256(((1 & to_uint256()) * 16)))}
exit {did at(%vector<unsignedchar>, w64((-idx(51) + 50))) = u8((31 & fold((to_uint256() >> 1), (~ >> 5), 51)))}
exit {ret = encode("mmx", %vector<unsignedchar>)}
at at(%vector<unsignedchar>, 51) = u8(wide256(((1 & to_uint256()) * 16)))
at at(%vector<unsignedchar>, w64((-idx(51) + 50))) = u8((31 & fold((to_uint256() >> 1), (~ >> 5), 51)))
fn mmx::addr_t::from_string
never break(loop)
each this = ctor(addr_t) ;; {"MMX" == $0}
each from_uint((((at(decode($0).dp, 51) >> 4) & 1) | wide256((((31 & at(decode($0).dp, 50)) | fold(0, wide256((((31 & at(decode($0).dp, idx(50))) | ~) * 32)), 50)) * 2))), false) ;; !{"MMX" == $0} ;; {Bech32m == decode($0).encoding} ;; {52 == size(decode($0).dp)}
raise !{"MMX" == $0} ;; !{Bech32m == decode($0).encoding}
raise !{"MMX" == $0} ;; {Bech32m == decode($0).encoding} ;; !{52 == size(decode($0).dp)}
value fold(0, wide256((((31 & at(decode($0).dp, idx(50))) | ~) * 32)), 50)
exit !{"MMX" == $0} | {did this = ctor(addr_t)}
exit {"MMX" == $0} | {52 == size(decode($0).dp)}
exit {"MMX" == $0} | {Bech32m == decode($0).encoding}
exit {"MMX" == $0} | {did from_uint((((at(decode($0).dp, 51) >> 4) & 1) | wide256((((31 & at(decode($0).dp, 50)) | fold(0, wide256((((31 & at(decode($0).dp, idx(50))) | ~) * 32)), 50)) * 2))), false)}
at this = ctor(addr_t) ;; {"MMX" == $0}
at from_uint((((at(decode($0).dp, 51) >> 4) & 1) | wide256((((31 & at(decode($0).dp, 50)) | fold(0, wide256((((31 & at(decode($0).dp, idx(50))) | ~) * 32)), 50)) * 2))), false) ;; !{"MMX" == $0} ;; {Bech32m == decode($0).encoding} ;; {52 == size(decode($0).dp)}
fn vnx::read sig=mmx::addr_t~& file=src/addr_t.cpp
each read($0, ctor(string), $2, $3) ;; {at($3, 0) == vnx::CODE_ALT_STRING} | {at($3, 0) == vnx::CODE_STRING}
each from_string($1, out(read‥, $0, $2, $3)) ;; {at($3, 0) == vnx::CODE_ALT_STRING} | {at($3, 0) == vnx::CODE_STRING}
each read($0, %Variant, $2, $3) ;; {at($3, 0) == vnx::CODE_ALT_DYNAMIC} | {at($3, 0) == vnx::CODE_DYNAMIC}
each read($0, $1.bytes, $2, $3) ;; !{at($3, 0) == vnx::CODE_STRING} ;; !{at($3, 0) == vnx::CODE_ALT_STRING} ;; !{at($3, 0) == vnx::CODE_DYNAMIC} ;; !{at($3, 0) == vnx::CODE_ALT_DYNAMIC}
never throw …
at read($0, ctor(string), $2, $3) ;; {at($3, 0) == vnx::CODE_ALT_STRING} | {at($3, 0) == vnx::CODE_STRING}
at from_string($1, out(read‥, $0, $2, $3)) ;; {at($3, 0) == vnx::CODE_ALT_STRING} | {at($3, 0) == vnx::CODE_STRING}
at read($0, %Variant, $2, $3) ;; {at($3, 0) == vnx::CODE_ALT_DYNAMIC} | {at($3, 0) == vnx::CODE_DYNAMIC}
at read($0, $1.bytes, $2, $3) ;; !{at($3, 0) == vnx::CODE_STRING} ;; !{at($3, 0) == vnx::CODE_ALT_STRING} ;; !{at($3, 0) == vnx::CODE_DYNAMIC} ;; !{at($3, 0) == vnx::CODE_ALT_DYNAMIC}
fn mmx::bytes_t<32>::bytes_t sig=basic_string
each memcpy(data(@bytes), data(from_hex_string($0)), 32) ;; {32 == size(from_hex_string($0))}
raise !{32 == size(from_hex_string($0))}
exit {32 == size(from_hex_string($0))}
exit {did @bytes := init(array<unsignedchar,32>, ctor(unsignedchar[32]))}
exit {did memcpy(data(@bytes), data(from_hex_string($0)), 32)}
at @bytes := init(array<unsignedchar,32>, ctor(unsignedchar[32]))
at memcpy(data(@bytes), data(from_hex_string($0)), 32)
fn mmx::bytes_t<32>::to_uint
never break(loop)
never throw …
value fold(0, ite({$0}, (at(@bytes, idx(32)) | wide256((256 * ~))), (at(@bytes, (-idx(32) + 31)) | wide256((256 * ~)))), 32)
exit {ret = fold(0, ite({$0}, (at(@bytes, idx(32)) | wide256((256 * ~))), (at(@bytes, (-idx(32) + 31)) | wide256((256 * ~)))), 32)}
fn mmx::bytes_t<32>::from_uint
never break(loop)
each at(@bytes, (-idx(32) + 31)) = u8(fold($0, (~ >> 8), 32)) ;; {$1}
each at(@bytes, idx(32)) = u8(fold($0, (~ >> 8), 32)) ;; !{$1}
never throw …
value fold($0, (~ >> 8), 32)
exit {ret = this}
exit !{$1} | {did at(@bytes, (-idx(32) + 31)) = u8(fold($0, (~ >> 8), 32))}
exit {$1} | {did at(@bytes, idx(32)) = u8(fold($0, (~ >> 8), 32))}
at at(@bytes, (-idx(32) + 31)) = u8(fold($0, (~ >> 8), 32)) ;; {$1}
at at(@bytes, idx(32)) = u8(fold($0, (~ >> 8), 32)) ;; !{$1}
fn mmx::bytes_t<32>::to_string
never throw …
exit {ret = to_hex_string(data(@bytes), size(@bytes), false, false)}
fn mmx::bytes_t<32>::from_string
each this = ctor(bytes_t<32>, $0)
never throw …
at ctor:bytes_t<32>($0)
exit {did this = ctor(bytes_t<32>, $0)}
at this = ctor(bytes_t<32>, $0)
fn mmx::bytes_t::is_zero
never throw …
true {ctor(bytes_t<N>) == this}
false !{ctor(bytes_t<N>) == this}
fn mmx::bytes_t::operator==
never throw …
true {$0.bytes == @bytes}
false !{$0.bytes == @bytes}
fn mmx::bytes_t::operator!=
never throw …
true !{$0.bytes == @bytes}
false {$0.bytes == @bytes}
fn mmx::bytes_t::bytes_t<N> sig=const~void
each @bytes.data() ;; {$1 == N}
each memcpy(apply(@bytes.data), $0, $1) ;; {$1 == N}
raise !{$1 == N}
exit {$1 == N}
exit {did @bytes.data()}
exit {did memcpy(apply(@bytes.data), $0, $1)}
at @bytes.data()
at memcpy(apply(@bytes.data), $0, $1)
fn mmx::hash_t::hash_t sig=vector<unsigned
never throw …
exit {did @base:self := ctor(hash_t, data($0), size($0))}
at @base:self := ctor(hash_t, data($0), size($0))
fn mmx::hash_t::hash_t sig=const~void
each @bytes = empty_hash.bytes ;; !{$1}
each sha256_ni(data(@bytes), $0, $1) ;; {$1} ;; {sha256_ni_available()}
each sha256_arm(data(@bytes), $0, $1) ;; {$1} ;; !{sha256_ni_available()} ;; {sha256_arm_available()}
each update(%SHA256, $0, $1) ;; {$1} ;; !{sha256_ni_available()} ;; !{sha256_arm_available()}
each finalize(%SHA256, data(@bytes)) ;; {$1} ;; !{sha256_ni_available()} ;; !{sha256_arm_available()}
never throw …
exit {$1} | {did @bytes = empty_hash.bytes}
exit !{$1} | !{sha256_ni_available()} | {did sha256_ni(data(@bytes), $0, $1)}
exit !{$1} | !{sha256_arm_available()} | {did sha256_arm(data(@bytes), $0, $1)} | {sha256_ni_available()}
exit !{$1} | {did finalize(%SHA256, data(@bytes))} | {sha256_arm_available()} | {sha256_ni_available()}
exit !{$1} | {did update(%SHA256, $0, $1)} | {sha256_arm_available()} | {sha256_ni_available()}
at @bytes = empty_hash.bytes ;; !{$1}
at sha256_ni(data(@bytes), $0, $1) ;; {$1} ;; {sha256_ni_available()}
at sha256_arm(data(@bytes), $0, $1) ;; {$1} ;; !{sha256_ni_available()} ;; {sha256_arm_available()}
at update(%SHA256, $0, $1) ;; {$1} ;; !{sha256_ni_available()} ;; !{sha256_arm_available()}
at finalize(%SHA256, data(@bytes)) ;; {$1} ;; !{sha256_ni_available()} ;; !{sha256_arm_available()}
fn mmx::hash_t::hash_t sig=basic_string
never throw …
exit {did @base:self := ctor(hash_t, data($0), size($0))}
at @base:self := ctor(hash_t, data($0), size($0))
fn mmx::hash_t::hash_t sig=bytes_t
never throw …
exit {did @base:self := ctor(hash_t, data($0), size($0))}
at @base:self := ctor(hash_t, data($0), size($0))
fn mmx::hash_t::ones
each data(ctor(hash_t))
each memset(data(ctor(hash_t)), -1, size(ctor(hash_t)))
never throw …
exit {did memset(data(ctor(hash_t)), -1, size(ctor(hash_t)))}
exit {ret = ctor(hash_t)}
at memset(data(ctor(hash_t)), -1, size(ctor(hash_t)))
fn mmx::hash_t::empty
never throw …
exit {ret = ctor(hash_t, 0, 0)}
fn mmx::hash_t::secure_random
never break(loop)
each data(%bytes_t<128>)
each secure_random_bytes(data(%bytes_t<128>), size(%bytes_t<128>))
never throw …
at ctor:bytes_t<32>(0, 32)
exit {did secure_random_bytes(data(%bytes_t<128>), size(%bytes_t<128>))}
exit {ret = ctor(hash_t, (%bytes_t<32> ++ %bytes_t<128>))}
at secure_random_bytes(data(%bytes_t<128>), size(%bytes_t<128>))
fn mmx::hash_t::random
each data(ctor(hash_t))
each secure_random_bytes(data(ctor(hash_t)), size(ctor(hash_t)))
never throw …
exit {did secure_random_bytes(data(ctor(hash_t)), size(ctor(hash_t)))}
exit {ret = ctor(hash_t)}
at secure_random_bytes(data(ctor(hash_t)), size(ctor(hash_t)))
fn mmx::mnemonic::seed_to_words
never break(loop)
at push_back(%vector<string,allocator<string>>, at($1, ite({idx(24)}, u16((2047 & fold(to_uint256($0), ite({idx(24)}, (~ >> 11), (~ >> 3)), 24))), ((255 & at(ctor(hash_t, from_uint(ctor(bytes_t<32>), to_uint256($0), true)), 0)) | u16(wide256(((7 & fold(to_uint256($0), ite({idx(24)}, (~ >> 11), (~ >> 3)), 24)) * 256))))))) ;; {2048 == size($1)}
each from_uint(ctor(bytes_t<32>), to_uint256($0), true) ;; {2048 == size($1)}
each push_back(%vector<string,allocator<string>>, at($1, ite({idx(24)}, u16((2047 & fold(to_uint256($0), ite({idx(24)}, (~ >> 11), (~ >> 3)), 24))), ((255 & at(ctor(hash_t, from_uint(ctor(bytes_t<32>), to_uint256($0), true)), 0)) | u16(wide256(((7 & fold(to_uint256($0), ite({idx(24)}, (~ >> 11), (~ >> 3)), 24)) * 256))))))) ;; {2048 == size($1)}
each reverse(begin(%vector<string,allocator<string>>), end(%vector<string,allocator<string>>)) ;; {2048 == size($1)}
raise !{2048 == size($1)}
value fold(to_uint256($0), ite({idx(24)}, (~ >> 11), (~ >> 3)), 24)
exit {2048 == size($1)}
exit {did from_uint(ctor(bytes_t<32>), to_uint256($0), true)}
exit {did push_back(%vector<string,allocator<string>>, at($1, ite({idx(24)}, u16((2047 & fold(to_uint256($0), ite({idx(24)}, (~ >> 11), (~ >> 3)), 24))), ((255 & at(ctor(hash_t, from_uint(ctor(bytes_t<32>), to_uint256($0), true)), 0)) | u16(wide256(((7 & fold(to_uint256($0), ite({idx(24)}, (~ >> 11), (~ >> 3)), 24)) * 256)))))))}
exit {did reverse(begin(%vector<string,allocator<string>>), end(%vector<string,allocator<string>>))}
exit {ret = %vector<string,allocator<string>>}
at from_uint(ctor(bytes_t<32>), to_uint256($0), true)
at push_back(%vector<string,allocator<string>>, at($1, ite({idx(24)}, u16((2047 & fold(to_uint256($0), ite({idx(24)}, (~ >> 11), (~ >> 3)), 24))), ((255 & at(ctor(hash_t, from_uint(ctor(bytes_t<32>), to_uint256($0), true)), 0)) | u16(wide256(((7 & fold(to_uint256($0), ite({idx(24)}, (~ >> 11), (~ >> 3)), 24)) * 256)))))))
at reverse(begin(%vector<string,allocator<string>>), end(%vector<string,allocator<string>>))
fn mmx::mnemonic::words_to_seed
never break(loop)
at from_uint(ctor(bytes_t<32>), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), false) ;; {24 == size($0)} ;; {2048 == size($1)}
at from_uint(ctor(bytes_t<32>), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), true) ;; {24 == size($0)} ;; {2048 == size($1)}
at from_uint(ctor(hash_t), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), false) ;; {24 == size($0)} ;; {2048 == size($1)} ;; {at(ctor(hash_t, from_uint(ctor(bytes_t<32>), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), false)), 0) == fold(0, ite({22 < idx(24)}, (255 & at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24)))), ~), 24)} | {at(ctor(hash_t, from_uint(ctor(bytes_t<32>), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), true)), 0) == fold(0, ite({22 < idx(24)}, (255 & at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24)))), ~), 24)}
each at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, elem($1)) = u16(idx($1)) ;; {24 == size($0)} ;; {2048 == size($1)}
each from_uint(ctor(bytes_t<32>), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), false) ;; {24 == size($0)} ;; {2048 == size($1)}
each from_uint(ctor(bytes_t<32>), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), true) ;; {24 == size($0)} ;; {2048 == size($1)}
each from_uint(ctor(hash_t), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), false) ;; {24 == size($0)} ;; {2048 == size($1)} ;; {at(ctor(hash_t, from_uint(ctor(bytes_t<32>), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), false)), 0) == fold(0, ite({22 < idx(24)}, (255 & at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24)))), ~), 24)} | {at(ctor(hash_t, from_uint(ctor(bytes_t<32>), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), true)), 0) == fold(0, ite({22 < idx(24)}, (255 & at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24)))), ~), 24)}
never break($1)
raise !{24 == size($0)}
raise {24 == size($0)} ;; !{2048 == size($1)}
raise {24 == size($0)} ;; {2048 == size($1)} ;; !{has(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24)))}
raise {24 == size($0)} ;; {2048 == size($1)} ;; !{at(ctor(hash_t, from_uint(ctor(bytes_t<32>), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), false)), 0) == fold(0, ite({22 < idx(24)}, (255 & at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24)))), ~), 24)} ;; !{at(ctor(hash_t, from_uint(ctor(bytes_t<32>), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), true)), 0) == fold(0, ite({22 < idx(24)}, (255 & at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24)))), ~), 24)}
value fold(0, ite({22 < idx(24)}, (255 & at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24)))), ~), 24)
value fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24)
exit {2048 == size($1)}
exit {24 == size($0)}
exit {did at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, elem($1)) = u16(idx($1))}
exit {did from_uint(ctor(bytes_t<32>), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), false)}
exit {did from_uint(ctor(bytes_t<32>), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), true)}
exit {did from_uint(ctor(hash_t), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), false)}
exit {has(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24)))}
exit {ret = ctor(hash_t)}
exit {at(ctor(hash_t, from_uint(ctor(bytes_t<32>), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), false)), 0) == fold(0, ite({22 < idx(24)}, (255 & at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24)))), ~), 24)} | {at(ctor(hash_t, from_uint(ctor(bytes_t<32>), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), true)), 0) == fold(0, ite({22 < idx(24)}, (255 & at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24)))), ~), 24)}
at at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, elem($1)) = u16(idx($1))
at from_uint(ctor(bytes_t<32>), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), false)
at from_uint(ctor(bytes_t<32>), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), true)
at from_uint(ctor(hash_t), fold(0, ite({22 < idx(24)}, ((at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) >> 8) | wide256((8 * ~))), (at(%unordered_map<string,unsignedshort,hash<string>,equal_to<string>,allocator<pair<string,unsignedshort>>>, at($0, idx(24))) | wide256((2048 * ~)))), 24), false)
fn mmx::mnemonic::words_to_string
never break($0)
never throw …
value fold(ctor(string), (ite({idx($0)}, (~ ++ " "), ~) ++ elem($0)), $0)
exit {ret = fold(ctor(string), (ite({idx($0)}, (~ ++ " "), ~) ++ elem($0)), $0)}
fn mmx::mnemonic::string_to_words
never throw …
exit {ret = string_split($0, 32, true)}
fn mmx::pubkey_t::pubkey_t sig=skey_t
each secp256k1_ec_pubkey_create(g_secp256k1, %secp256k1_pubkey, data($0))
each this = %secp256k1_pubkey ;; {secp256k1_ec_pubkey_create(g_secp256k1, %secp256k1_pubkey, data($0))}
raise !{secp256k1_ec_pubkey_create(g_secp256k1, %secp256k1_pubkey, data($0))}
exit {did secp256k1_ec_pubkey_create(g_secp256k1, %secp256k1_pubkey, data($0))}
exit {did this = %secp256k1_pubkey}
exit {secp256k1_ec_pubkey_create(g_secp256k1, %secp256k1_pubkey, data($0))}
at secp256k1_ec_pubkey_create(g_secp256k1, %secp256k1_pubkey, data($0))
at this = %secp256k1_pubkey
fn mmx::pubkey_t::pubkey_t sig=secp256k1_pubkey
each data()
each secp256k1_ec_pubkey_serialize(g_secp256k1, data(), &, $0, 258)
raise !{33 == out(secp256k1_ec_pubkey_serialize#v, g_secp256k1, data(), $0, 258)}
exit {33 == out(secp256k1_ec_pubkey_serialize‥, g_secp256k1, data(), $0, 258)}
exit {did secp256k1_ec_pubkey_serialize(g_secp256k1, data(), &, $0, 258)}
at secp256k1_ec_pubkey_serialize(g_secp256k1, data(), &, $0, 258)
fn mmx::pubkey_t::to_secp256k1
each secp256k1_ec_pubkey_parse(g_secp256k1, %secp256k1_pubkey, data(), size())
raise !{secp256k1_ec_pubkey_parse(g_secp256k1, %secp256k1_pubkey, data(), size())}
exit {did secp256k1_ec_pubkey_parse(g_secp256k1, %secp256k1_pubkey, data(), size())}
exit {ret = %secp256k1_pubkey}
exit {secp256k1_ec_pubkey_parse(g_secp256k1, %secp256k1_pubkey, data(), size())}
at secp256k1_ec_pubkey_parse(g_secp256k1, %secp256k1_pubkey, data(), size())
fn mmx::skey_t::~skey_t
each data()
each memset(data(), 0, size())
never throw …
exit {did memset(data(), 0, size())}
at memset(data(), 0, size())
fn mmx::pubkey_t::get_addr
never throw …
exit {ret = ctor(hash_t, @bytes)}
