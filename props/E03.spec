tus src/vm/var_t.cpp src/vm/varptr_t.cpp src/vm/instr_t.cpp
fn mmx::vm::clone sig=const~mmx::vm::var_t~&
never throw …
exit !{$0.type == vm::TYPE_ARRAY} | {ret = new(vm::array_t,default_delete<vm::array_t>, $0)}
exit !{$0.type == vm::TYPE_FALSE} | {ret = new(vm::var_t,default_delete<vm::var_t>, $0)}
exit !{$0.type == vm::TYPE_MAP} | {ret = new(vm::map_t,default_delete<vm::map_t>, $0)}
exit !{$0.type == vm::TYPE_NIL} | {ret = new(vm::var_t,default_delete<vm::var_t>, $0)}
exit !{$0.type == vm::TYPE_REF} | {ret = new(vm::ref_t,default_delete<vm::ref_t>, $0)}
exit !{$0.type == vm::TYPE_TRUE} | {ret = new(vm::var_t,default_delete<vm::var_t>, $0)}
exit !{$0.type == vm::TYPE_UINT} | {ret = new(vm::uint_t,default_delete<vm::uint_t>, $0)}
fn mmx::vm::compare sig=const~mmx::vm::var_t~&
never throw …
exit !{$0.type < $1.type} | {$0.type == $1.type} | {ret = -1}
exit !{$0.type == $1.type} | !{$0.type == vm::TYPE_FALSE} | {ret = 0}
exit !{$0.type == $1.type} | !{$0.type == vm::TYPE_NIL} | {ret = 0}
exit !{$0.type == $1.type} | !{$0.type == vm::TYPE_TRUE} | {ret = 0}
exit {$0.type < $1.type} | {$0.type == $1.type} | {ret = 1}
exit !{$0.address == $1.address} | !{$0.type == $1.type} | !{$0.type == vm::TYPE_REF} | {ret = 0}
exit !{$0.address < $1.address} | !{$0.type == $1.type} | !{$0.type == vm::TYPE_REF} | {$0.address == $1.address} | {ret = -1}
exit !{$0.type == $1.type} | !{$0.type == vm::TYPE_REF} | {$0.address < $1.address} | {$0.address == $1.address} | {ret = 1}
exit !{$0.type == $1.type} | !{$0.type == vm::TYPE_UINT} | !{$0.value == $1.value} | {$0.type == vm::TYPE_REF} | {ret = 0}
fn mmx::vm::compare sig=const~mmx::vm::var_t~*
never throw …
exit !{$0} | !{$1} | {ret = compare($0, $1)}
exit !{$0} | {$1} | {ret = 1}
exit !{$1} | {$0} | {ret = -1}
exit {$0} | {$1} | {ret = 0}
fn mmx::vm::serialize sig=var_t
each memcpy(%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data, $0.ref_count, 4) ;; {$1}
each memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0)), $0.flags, 1) ;; {$2}
each memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0)), $0.type, 1)
each memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), $0.address, 8) ;; {$0.type == vm::TYPE_REF}
each at(%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data, (ite({$1}, 4, 0) + ite({$2}, 1, 0))) = vm::TYPE_UINT256 ;; {$0.type == vm::TYPE_UINT} ;; {upper($0.value)}
each memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), $0.value, 32) ;; {$0.type == vm::TYPE_UINT} ;; {upper($0.value)}
each at(%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data, (ite({$1}, 4, 0) + ite({$2}, 1, 0))) = vm::TYPE_UINT128 ;; {$0.type == vm::TYPE_UINT} ;; !{upper($0.value)} ;; {upper(lower($0.value))}
each memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), lower($0.value), 16) ;; {$0.type == vm::TYPE_UINT} ;; !{upper($0.value)} ;; {upper(lower($0.value))}
each at(%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data, (ite({$1}, 4, 0) + ite({$2}, 1, 0))) = vm::TYPE_UINT64 ;; {$0.type == vm::TYPE_UINT} ;; !{upper($0.value)} ;; !{upper(lower($0.value))} ;; {(lower(lower($0.value)) / 4294967296)}
each memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), lower(lower($0.value)), 8) ;; {$0.type == vm::TYPE_UINT} ;; !{upper($0.value)} ;; !{upper(lower($0.value))} ;; {(lower(lower($0.value)) / 4294967296)}
each at(%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data, (ite({$1}, 4, 0) + ite({$2}, 1, 0))) = vm::TYPE_UINT32 ;; {$0.type == vm::TYPE_UINT} ;; !{upper($0.value)} ;; !{upper(lower($0.value))} ;; !{(lower(lower($0.value)) / 4294967296)} ;; {(u32(lower(lower($0.value))) / 65536)}
each memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), u32(lower(lower($0.value))), 4) ;; {$0.type == vm::TYPE_UINT} ;; !{upper($0.value)} ;; !{upper(lower($0.value))} ;; !{(lower(lower($0.value)) / 4294967296)} ;; {(u32(lower(lower($0.value))) / 65536)}
each at(%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data, (ite({$1}, 4, 0) + ite({$2}, 1, 0))) = vm::TYPE_UINT16 ;; {$0.type == vm::TYPE_UINT} ;; !{upper($0.value)} ;; !{upper(lower($0.value))} ;; !{(lower(lower($0.value)) / 4294967296)} ;; !{(u32(lower(lower($0.value))) / 65536)}
each memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), u16(u32(lower(lower($0.value)))), 2) ;; {$0.type == vm::TYPE_UINT} ;; !{upper($0.value)} ;; !{upper(lower($0.value))} ;; !{(lower(lower($0.value)) / 4294967296)} ;; !{(u32(lower(lower($0.value))) / 65536)}
each memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), $0.size, 4) ;; {$0.type == vm::TYPE_BINARY} | {$0.type == vm::TYPE_STRING}
each memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 5), data($0, 0), $0.size) ;; {$0.type == vm::TYPE_BINARY} | {$0.type == vm::TYPE_STRING}
each memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), $0.address, 8) ;; {$0.type == vm::TYPE_ARRAY}
each memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 9), $0.size, 4) ;; {$0.type == vm::TYPE_ARRAY}
each memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), $0.address, 8) ;; {$0.type == vm::TYPE_MAP}
never throw …
exit {did memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0)), $0.type, 1)}
exit {ret = pair(%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data, (ite({$0.type == vm::TYPE_REF}, 9, ite({$0.type == vm::TYPE_UINT}, ite({upper($0.value)}, 33, ite({upper(lower($0.value))}, 17, ite({(lower(lower($0.value)) / 4294967296)}, 9, ite({(u32(lower(lower($0.value))) / 65536)}, 5, 3)))), ite((!{$0.type == vm::TYPE_BINARY} && !{$0.type == vm::TYPE_STRING}), ite({$0.type == vm::TYPE_ARRAY}, 13, ite({$0.type == vm::TYPE_MAP}, 9, 1)), ($0.size + 5)))) + ite({$1}, 4, 0) + ite({$2}, 1, 0)))}
exit !{$0.type == vm::TYPE_REF} | {did memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), $0.address, 8)}
exit !{$1} | {did memcpy(%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data, $0.ref_count, 4)}
exit !{$2} | {did memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0)), $0.flags, 1)}
exit !{$0.type == vm::TYPE_BINARY} | {$0.type == vm::TYPE_REF} | {$0.type == vm::TYPE_UINT} | {did memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), $0.size, 4)}
exit !{$0.type == vm::TYPE_BINARY} | {$0.type == vm::TYPE_REF} | {$0.type == vm::TYPE_UINT} | {did memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 5), data($0, 0), $0.size)}
exit !{$0.type == vm::TYPE_STRING} | {$0.type == vm::TYPE_REF} | {$0.type == vm::TYPE_UINT} | {did memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), $0.size, 4)}
exit !{$0.type == vm::TYPE_STRING} | {$0.type == vm::TYPE_REF} | {$0.type == vm::TYPE_UINT} | {did memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 5), data($0, 0), $0.size)}
exit !{$0.type == vm::TYPE_UINT} | !{upper($0.value)} | {$0.type == vm::TYPE_REF} | {did at(%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data, (ite({$1}, 4, 0) + ite({$2}, 1, 0))) = vm::TYPE_UINT256}
exit !{$0.type == vm::TYPE_UINT} | !{upper($0.value)} | {$0.type == vm::TYPE_REF} | {did memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), $0.value, 32)}
exit !{$0.type == vm::TYPE_UINT} | !{upper(lower($0.value))} | {$0.type == vm::TYPE_REF} | {did at(%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data, (ite({$1}, 4, 0) + ite({$2}, 1, 0))) = vm::TYPE_UINT128} | {upper($0.value)}
exit !{$0.type == vm::TYPE_UINT} | !{upper(lower($0.value))} | {$0.type == vm::TYPE_REF} | {did memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), lower($0.value), 16)} | {upper($0.value)}
at memcpy(%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data, $0.ref_count, 4) ;; {$1}
at memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0)), $0.flags, 1) ;; {$2}
at memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0)), $0.type, 1)
at memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), $0.address, 8)
at at(%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data, (ite({$1}, 4, 0) + ite({$2}, 1, 0))) = vm::TYPE_UINT256 ;; {$0.type == vm::TYPE_UINT} ;; {upper($0.value)}
at memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), $0.value, 32) ;; {$0.type == vm::TYPE_UINT} ;; {upper($0.value)}
at at(%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data, (ite({$1}, 4, 0) + ite({$2}, 1, 0))) = vm::TYPE_UINT128 ;; {$0.type == vm::TYPE_UINT} ;; !{upper($0.value)} ;; {upper(lower($0.value))}
at memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), lower($0.value), 16) ;; {$0.type == vm::TYPE_UINT} ;; !{upper($0.value)} ;; {upper(lower($0.value))}
at at(%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data, (ite({$1}, 4, 0) + ite({$2}, 1, 0))) = vm::TYPE_UINT64 ;; {$0.type == vm::TYPE_UINT} ;; !{upper($0.value)} ;; !{upper(lower($0.value))} ;; {(lower(lower($0.value)) / 4294967296)}
at memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), lower(lower($0.value)), 8) ;; {$0.type == vm::TYPE_UINT} ;; !{upper($0.value)} ;; !{upper(lower($0.value))} ;; {(lower(lower($0.value)) / 4294967296)}
at at(%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data, (ite({$1}, 4, 0) + ite({$2}, 1, 0))) = vm::TYPE_UINT32 ;; {$0.type == vm::TYPE_UINT} ;; !{upper($0.value)} ;; !{upper(lower($0.value))} ;; !{(lower(lower($0.value)) / 4294967296)} ;; {(u32(lower(lower($0.value))) / 65536)}
at memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), u32(lower(lower($0.value))), 4) ;; {$0.type == vm::TYPE_UINT} ;; !{upper($0.value)} ;; !{upper(lower($0.value))} ;; !{(lower(lower($0.value)) / 4294967296)} ;; {(u32(lower(lower($0.value))) / 65536)}
at at(%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data, (ite({$1}, 4, 0) + ite({$2}, 1, 0))) = vm::TYPE_UINT16 ;; {$0.type == vm::TYPE_UINT} ;; !{upper($0.value)} ;; !{upper(lower($0.value))} ;; !{(lower(lower($0.value)) / 4294967296)} ;; !{(u32(lower(lower($0.value))) / 65536)}
at memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), u16(u32(lower(lower($0.value)))), 2) ;; {$0.type == vm::TYPE_UINT} ;; !{upper($0.value)} ;; !{upper(lower($0.value))} ;; !{(lower(lower($0.value)) / 4294967296)} ;; !{(u32(lower(lower($0.value))) / 65536)}
at memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 1), $0.size, 4) ;; {$0.type == vm::TYPE_BINARY} | {$0.type == vm::TYPE_STRING}
at memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 5), data($0, 0), $0.size) ;; {$0.type == vm::TYPE_BINARY} | {$0.type == vm::TYPE_STRING}
at memcpy((%unique_ptr<unsignedchar[],default_delete<unsignedchar[]>>:data + ite({$1}, 4, 0) + ite({$2}, 1, 0) + 9), $0.size, 4) ;; {$0.type == vm::TYPE_ARRAY}
fn mmx::vm::deserialize sig=var_t
each memcpy(&, $1, 4) ;; {$3} ;; {3 < $2}
each memcpy(%unique_ptr<vm::ref_t,default_delete<vm::ref_t>>.address, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 8) ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_REF} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 9)}
each memcpy(&, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128}, 16, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16}, 2, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32}, 4, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64}, 8, 32))))) ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT256} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128}, 16, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16}, 2, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32}, 4, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64}, 8, 32)))) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16}
each %unique_ptr<vm::uint_t,default_delete<vm::uint_t>>.value = out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128}, 16, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16}, 2, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32}, 4, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64}, 8, 32))))) ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT256} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128}, 16, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16}, 2, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32}, 4, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64}, 8, 32)))) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16}
each memcpy(&, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128}, 16, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16}, 2, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32}, 4, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64}, 8, 32))))) ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT256} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128}, 16, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16}, 2, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32}, 4, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64}, 8, 32)))) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32}
each %unique_ptr<vm::uint_t,default_delete<vm::uint_t>>.value = out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128}, 16, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16}, 2, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32}, 4, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64}, 8, 32))))) ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT256} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128}, 16, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16}, 2, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32}, 4, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64}, 8, 32)))) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32}
each memcpy(&, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128}, 16, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16}, 2, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32}, 4, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64}, 8, 32))))) ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT256} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128}, 16, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16}, 2, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32}, 4, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64}, 8, 32)))) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64}
each %unique_ptr<vm::uint_t,default_delete<vm::uint_t>>.value = out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128}, 16, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16}, 2, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32}, 4, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64}, 8, 32))))) ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT256} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128}, 16, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16}, 2, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32}, 4, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64}, 8, 32)))) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64}
each memcpy(&, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 16) ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT256} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128}, 16, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16}, 2, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32}, 4, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64}, 8, 32)))) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128}
each %unique_ptr<vm::uint_t,default_delete<vm::uint_t>>.value = out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 16) ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT256} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128}, 16, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16}, 2, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32}, 4, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64}, 8, 32)))) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128}
each memcpy(%unique_ptr<vm::uint_t,default_delete<vm::uint_t>>.value, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 32) ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT256} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128}, 16, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16}, 2, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32}, 4, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64}, 8, 32)))) + 1)} ;; !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16} ;; !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32} ;; !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64} ;; !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128}
each memcpy(&, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4) ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_BINARY} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_STRING} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 5)}
each unsafe_alloc(out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4), at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0)))).size = out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4) ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_BINARY} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_STRING} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 5)} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4) + 5)}
each data(unsafe_alloc(out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4), at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0)))), 0) ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_BINARY} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_STRING} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 5)} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4) + 5)}
each memcpy(data(unsafe_alloc(out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4), at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0)))), 0), ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 5), unsafe_alloc(out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4), at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0)))).size) ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_BINARY} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_STRING} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 5)} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4) + 5)}
each data(unsafe_alloc(out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4), at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0)))), unsafe_alloc(out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4), at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0)))).size) ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_BINARY} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_STRING} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 5)} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4) + 5)}
each memset(data(unsafe_alloc(out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4), at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0)))), unsafe_alloc(out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4), at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0)))).size), 0, (-unsafe_alloc(out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4), at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0)))).size + unsafe_alloc(out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4), at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0)))).capacity)) ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_BINARY} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_STRING} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 5)} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4) + 5)}
each memcpy(%unique_ptr<vm::array_t,default_delete<vm::array_t>>.address, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 8) ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_ARRAY} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 13)}
each memcpy(%unique_ptr<vm::array_t,default_delete<vm::array_t>>.size, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 9), 4) ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_ARRAY} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 13)}
each memcpy(%unique_ptr<vm::map_t,default_delete<vm::map_t>>.address, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 8) ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_MAP} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 9)}
raise {$3} ;; !{3 < $2}
raise {$4} ;; {$2 < (ite({$3}, 4, 0) + 1)}
raise {$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)}
raise !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_REF} ;; {$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 9)}
raise !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT256} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT} ;; {$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128}, 16, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16}, 2, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32}, 4, ite({at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64}, 8, 32)))) + 1)}
raise !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_BINARY} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_STRING} ;; {$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 5)}
raise !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_BINARY} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_STRING} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 5)} ;; {$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + out(memcpy#v, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4) + 5)}
raise !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_ARRAY} ;; {$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 13)}
raise !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_MAP} ;; {$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 9)}
raise !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)} ;; !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_NIL} ;; !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_TRUE} ;; !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_FALSE} ;; !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_REF} ;; !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT} ;; !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT16} ;; !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT32} ;; !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT64} ;; !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT128} ;; !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_UINT256} ;; !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_STRING} ;; !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_BINARY} ;; !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_ARRAY} ;; !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_MAP}
exit !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1)}
exit !{$2 < (ite({$3}, 4, 0) + 1)} | !{$4}
exit !{$3} | {3 < $2}
exit !{$3} | {did memcpy(&, $1, 4)}
exit !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_ARRAY} | {out $0 = %unique_ptr<vm::array_t,default_delete<vm::array_t>>}
exit !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_FALSE} | {out $0 = new(vm::var_t,default_delete<vm::var_t>, at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))))}
exit !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_NIL} | {out $0 = new(vm::var_t,default_delete<vm::var_t>, at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))))}
exit !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_REF} | {out $0 = %unique_ptr<vm::ref_t,default_delete<vm::ref_t>>}
exit !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_TRUE} | {out $0 = new(vm::var_t,default_delete<vm::var_t>, at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))))}
exit !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 9)} | !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_REF} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_FALSE} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_NIL} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_TRUE}
exit !{at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_REF} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_FALSE} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_NIL} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_TRUE} | {did memcpy(%unique_ptr<vm::ref_t,default_delete<vm::ref_t>>.address, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 8)}
at memcpy(&, $1, 4) ;; {$3} ;; {3 < $2}
at memcpy(%unique_ptr<vm::ref_t,default_delete<vm::ref_t>>.address, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 8) ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_REF} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 9)}
at memcpy(&, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4) ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_BINARY} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_STRING} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 5)}
at unsafe_alloc(out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4), at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0)))).size = out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4) ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_BINARY} | {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_STRING} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 5)} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + out(memcpy‥, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 4) + 5)}
at memcpy(%unique_ptr<vm::array_t,default_delete<vm::array_t>>.address, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 8) ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_ARRAY} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 13)}
at memcpy(%unique_ptr<vm::array_t,default_delete<vm::array_t>>.size, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 9), 4) ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_ARRAY} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 13)}
at memcpy(%unique_ptr<vm::map_t,default_delete<vm::map_t>>.address, ($1 + ite({$3}, 4, 0) + ite({$4}, 1, 0) + 1), 8) ;; {at($1, (ite({$3}, 4, 0) + ite({$4}, 1, 0))) == vm::TYPE_MAP} ;; !{$2 < (ite({$3}, 4, 0) + ite({$4}, 1, 0) + 9)}
fn mmx::vm::to_ref sig=const~mmx::vm::var_t~&
never throw …
exit !{$0.type == vm::TYPE_ARRAY} | {ret = $0.address}
exit !{$0.type == vm::TYPE_MAP} | {ret = $0.address}
exit !{$0.type == vm::TYPE_REF} | {ret = $0.address}
exit {$0.type == vm::TYPE_ARRAY} | {$0.type == vm::TYPE_MAP} | {$0.type == vm::TYPE_REF} | {ret = 0}
fn mmx::vm::to_uint sig=const~mmx::vm::var_t~&
never throw …
exit !{$0.type == vm::TYPE_UINT} | {ret = $0.value}
exit {$0.type == vm::TYPE_UINT} | {ret = 0}
fn mmx::vm::to_hash sig=const~mmx::vm::var_t~&
never throw …
exit !{$0.type == vm::TYPE_BINARY} | {ret = to_hash($0)}
exit {$0.type == vm::TYPE_BINARY} | {ret = ctor(hash_t)}
fn mmx::vm::to_addr sig=const~mmx::vm::var_t~&
never throw …
exit !{$0.type == vm::TYPE_BINARY} | {ret = to_addr($0)}
exit !{$0.type == vm::TYPE_STRING} | {ret = ctor(addr_t, to_string($0))}
exit {$0.type == vm::TYPE_BINARY} | {$0.type == vm::TYPE_STRING} | {ret = ctor(addr_t)}
fn mmx::vm::get_size sig=const~mmx::vm::var_t~&
never throw …
exit !{$0.type == vm::TYPE_ARRAY} | {ret = $0.size}
exit !{$0.type == vm::TYPE_BINARY} | {ret = $0.size}
exit !{$0.type == vm::TYPE_STRING} | {ret = $0.size}
exit {$0.type == vm::TYPE_ARRAY} | {$0.type == vm::TYPE_BINARY} | {$0.type == vm::TYPE_STRING} | {ret = 0}
fn mmx::vm::num_bytes sig=const~mmx::vm::var_t~&
never throw …
exit !{$0.type == vm::TYPE_ARRAY} | {ret = 12}
exit !{$0.type == vm::TYPE_BINARY} | {$0.type == vm::TYPE_REF} | {$0.type == vm::TYPE_UINT} | {ret = $0.size}
exit !{$0.type == vm::TYPE_MAP} | {ret = 8}
exit !{$0.type == vm::TYPE_REF} | {ret = 8}
exit !{$0.type == vm::TYPE_STRING} | {$0.type == vm::TYPE_REF} | {$0.type == vm::TYPE_UINT} | {ret = $0.size}
exit !{$0.type == vm::TYPE_UINT} | {ret = 32}
fn mmx::vm::to_string_value sig=const~mmx::vm::var_t~&
never throw …
exit {ret = to_string($0)}
fn mmx::vm::to_string_value_hex sig=const~mmx::vm::var_t~&
never throw …
exit !{$0.type == vm::TYPE_BINARY} | {ret = to_hex_string($0)}
exit !{$0.type == vm::TYPE_STRING} | {ret = to_hex_string($0)}
exit {$0.type == vm::TYPE_BINARY} | {$0.type == vm::TYPE_STRING} | {ret = to_string($0)}
fn mmx::vm::to_string sig=(const~mmx::vm::var_t~&
never throw …
exit !{$0.type == vm::TYPE_ARRAY} | {ret = (((("[0x" ++ to_hex_string($0.address)) ++ ",") ++ to_string($0.size)) ++ "]")}
exit !{$0.type == vm::TYPE_FALSE} | {ret = "false"}
exit !{$0.type == vm::TYPE_MAP} | {ret = (("{0x" ++ to_hex_string($0.address)) ++ "}")}
exit !{$0.type == vm::TYPE_NIL} | {ret = "null"}
exit !{$0.type == vm::TYPE_REF} | {ret = (("<0x" ++ to_hex_string($0.address)) ++ ">")}
exit !{$0.size == 32} | !{$0.type == vm::TYPE_BINARY} | {ret = ((("0x" ++ to_hex_string($0)) ++ " | ") ++ to_string(to_addr($0)))}
exit !{$0.type == vm::TYPE_BINARY} | {$0.size == 32} | {ret = ("0x" ++ to_hex_string($0))}
exit !{$0.type == vm::TYPE_TRUE} | {$0.type == vm::TYPE_NIL} | {ret = "true"}
fn mmx::vm::var_t::addref
each @flags = u8((@flags | FLAG_DIRTY)) ;; !{(@flags & FLAG_STORED)}
each @ref_count = (@ref_count + 1) ;; !{(@flags & FLAG_STORED)}
never throw …
exit {(@flags & FLAG_STORED)} | {did @flags = u8((@flags | FLAG_DIRTY))}
exit {(@flags & FLAG_STORED)} | {did @ref_count = (@ref_count + 1)}
at @flags = u8((@flags | FLAG_DIRTY)) ;; !{(@flags & FLAG_STORED)}
at @ref_count = (@ref_count + 1) ;; !{(@flags & FLAG_STORED)}
fn mmx::vm::var_t::unref
each @flags = u8((@flags | FLAG_DIRTY)) ;; !{(@flags & FLAG_STORED)} ;; {@ref_count}
each @ref_count = (@ref_count + -1) ;; !{(@flags & FLAG_STORED)} ;; {@ref_count}
raise !{(@flags & FLAG_STORED)} ;; !{@ref_count}
exit {(@flags & FLAG_STORED)} | {@ref_count}
exit {(@flags & FLAG_STORED)} | {did @flags = u8((@flags | FLAG_DIRTY))}
exit {(@flags & FLAG_STORED)} | {did @ref_count = (@ref_count + -1)}
true !{(@flags & FLAG_STORED)}
true {1 == @ref_count}
false !{1 == @ref_count} | {(@flags & FLAG_STORED)}
at @flags = u8((@flags | FLAG_DIRTY)) ;; !{(@flags & FLAG_STORED)} ;; {@ref_count}
at @ref_count = (@ref_count + -1) ;; !{(@flags & FLAG_STORED)} ;; {@ref_count}
fn mmx::vm::var_t::pin
each @ref_count = 1 ;; !{(@flags & FLAG_STORED)} ;; !{@ref_count}
each @flags = u8((@flags | FLAG_DIRTY)) ;; !{(@flags & FLAG_STORED)} ;; !{@ref_count}
never throw …
exit {ret = this}
exit {(@flags & FLAG_STORED)} | {@ref_count} | {did @flags = u8((@flags | FLAG_DIRTY))}
exit {(@flags & FLAG_STORED)} | {@ref_count} | {did @ref_count = 1}
at @ref_count = 1 ;; !{(@flags & FLAG_STORED)} ;; !{@ref_count}
at @flags = u8((@flags | FLAG_DIRTY)) ;; !{(@flags & FLAG_STORED)} ;; !{@ref_count}
fn mmx::vm::binary_t::to_string
never throw …
exit {ret = ctor(string, c_str(), @size)}
fn mmx::vm::binary_t::to_hex_string
never throw …
exit {ret = to_hex_string(data(0), @size, false, false)}
fn mmx::vm::binary_t::to_vector
each memcpy(data(%vector<unsignedchar>), @p_data, @size)
never throw …
exit {did memcpy(data(%vector<unsignedchar>), @p_data, @size)}
exit {ret = %vector<unsignedchar>}
at memcpy(data(%vector<unsignedchar>), @p_data, @size)
fn mmx::vm::binary_t::to_hash
raise !{32 == @size}
exit {32 == @size}
exit {ret = from_bytes(data(0))}
fn mmx::vm::binary_t::to_addr
raise !{32 == @size}
exit {32 == @size}
exit {ret = from_bytes(data(0))}
fn mmx::vm::binary_t::unsafe_alloc
each %unique_ptr<vm::binary_t,default_delete<vm::binary_t>>.capacity = u32(($0 + ite({$1 == vm::TYPE_BINARY}, 0, 1))) ;; {$0 < max()}
each %unique_ptr<vm::binary_t,default_delete<vm::binary_t>>.p_data = malloc(max(($0 + ite({$1 == vm::TYPE_BINARY}, 0, 1)), 1)) ;; {$0 < max()}
raise !{$0 < max()}
raise {$0 < max()} ;; !{$1 == vm::TYPE_BINARY} ;; !{$1 == vm::TYPE_STRING}
raise {$0 < max()} ;; !{malloc(max(($0 + ite({$1 == vm::TYPE_BINARY}, 0, 1)), 1))}
exit {$0 < max()}
exit {did %unique_ptr<vm::binary_t,default_delete<vm::binary_t>>.capacity = u32(($0 + ite({$1 == vm::TYPE_BINARY}, 0, 1)))}
exit {did %unique_ptr<vm::binary_t,default_delete<vm::binary_t>>.p_data = malloc(max(($0 + ite({$1 == vm::TYPE_BINARY}, 0, 1)), 1))}
exit {malloc(max(($0 + ite({$1 == vm::TYPE_BINARY}, 0, 1)), 1))}
exit {ret = %unique_ptr<vm::binary_t,default_delete<vm::binary_t>>}
exit {$1 == vm::TYPE_BINARY} | {$1 == vm::TYPE_STRING}
at %unique_ptr<vm::binary_t,default_delete<vm::binary_t>>.capacity = u32(($0 + ite({$1 == vm::TYPE_BINARY}, 0, 1)))
at %unique_ptr<vm::binary_t,default_delete<vm::binary_t>>.p_data = malloc(max(($0 + ite({$1 == vm::TYPE_BINARY}, 0, 1)), 1))
fn mmx::vm::binary_t::clone
each alloc($0).ref_count = $0.ref_count
each alloc($0).flags = $0.flags
never throw …
exit {did alloc($0).flags = $0.flags}
exit {did alloc($0).ref_count = $0.ref_count}
exit {ret = alloc($0)}
at alloc($0).ref_count = $0.ref_count
at alloc($0).flags = $0.flags
fn mmx::vm::binary_t::alloc sig=const~mmx::vm::binary_t~&)
never throw …
exit {ret = alloc($0, $0.type)}
fn mmx::vm::binary_t::alloc sig=const~mmx::vm::binary_t~&,~const~mmx::vm::vartype_e
each unsafe_alloc($0.size, $1).size = $0.size
each data(unsafe_alloc($0.size, $1), 0)
each memcpy(data(unsafe_alloc($0.size, $1), 0), data($0, 0), unsafe_alloc($0.size, $1).size)
each data(unsafe_alloc($0.size, $1), unsafe_alloc($0.size, $1).size)
each memset(data(unsafe_alloc($0.size, $1), unsafe_alloc($0.size, $1).size), 0, (-unsafe_alloc($0.size, $1).size + unsafe_alloc($0.size, $1).capacity))
never throw …
exit {did memcpy(data(unsafe_alloc($0.size, $1), 0), data($0, 0), unsafe_alloc($0.size, $1).size)}
exit {did memset(data(unsafe_alloc($0.size, $1), unsafe_alloc($0.size, $1).size), 0, (-unsafe_alloc($0.size, $1).size + unsafe_alloc($0.size, $1).capacity))}
exit {did unsafe_alloc($0.size, $1).size = $0.size}
exit {ret = unsafe_alloc($0.size, $1)}
at unsafe_alloc($0.size, $1).size = $0.size
at memcpy(data(unsafe_alloc($0.size, $1), 0), data($0, 0), unsafe_alloc($0.size, $1).size)
at memset(data(unsafe_alloc($0.size, $1), unsafe_alloc($0.size, $1).size), 0, (-unsafe_alloc($0.size, $1).size + unsafe_alloc($0.size, $1).capacity))
fn mmx::vm::binary_t::alloc sig=basic_string
each unsafe_alloc(size($0), $1).size = u32(size($0))
each data(unsafe_alloc(size($0), $1), 0)
each memcpy(data(unsafe_alloc(size($0), $1), 0), c_str($0), unsafe_alloc(size($0), $1).size)
each data(unsafe_alloc(size($0), $1), unsafe_alloc(size($0), $1).size)
each memset(data(unsafe_alloc(size($0), $1), unsafe_alloc(size($0), $1).size), 0, (-unsafe_alloc(size($0), $1).size + unsafe_alloc(size($0), $1).capacity))
never throw …
exit {did memcpy(data(unsafe_alloc(size($0), $1), 0), c_str($0), unsafe_alloc(size($0), $1).size)}
exit {did memset(data(unsafe_alloc(size($0), $1), unsafe_alloc(size($0), $1).size), 0, (-unsafe_alloc(size($0), $1).size + unsafe_alloc(size($0), $1).capacity))}
exit {did unsafe_alloc(size($0), $1).size = u32(size($0))}
exit {ret = unsafe_alloc(size($0), $1)}
at unsafe_alloc(size($0), $1).size = u32(size($0))
at memcpy(data(unsafe_alloc(size($0), $1), 0), c_str($0), unsafe_alloc(size($0), $1).size)
at memset(data(unsafe_alloc(size($0), $1), unsafe_alloc(size($0), $1).size), 0, (-unsafe_alloc(size($0), $1).size + unsafe_alloc(size($0), $1).capacity))
fn mmx::vm::binary_t::alloc sig=const~void
each unsafe_alloc($1, $2).size = u32($1)
each data(unsafe_alloc($1, $2), 0)
each memcpy(data(unsafe_alloc($1, $2), 0), $0, unsafe_alloc($1, $2).size)
each data(unsafe_alloc($1, $2), unsafe_alloc($1, $2).size)
each memset(data(unsafe_alloc($1, $2), unsafe_alloc($1, $2).size), 0, (-unsafe_alloc($1, $2).size + unsafe_alloc($1, $2).capacity))
never throw …
exit {did memcpy(data(unsafe_alloc($1, $2), 0), $0, unsafe_alloc($1, $2).size)}
exit {did memset(data(unsafe_alloc($1, $2), unsafe_alloc($1, $2).size), 0, (-unsafe_alloc($1, $2).size + unsafe_alloc($1, $2).capacity))}
exit {did unsafe_alloc($1, $2).size = u32($1)}
exit {ret = unsafe_alloc($1, $2)}
at unsafe_alloc($1, $2).size = u32($1)
at memcpy(data(unsafe_alloc($1, $2), 0), $0, unsafe_alloc($1, $2).size)
at memset(data(unsafe_alloc($1, $2), unsafe_alloc($1, $2).size), 0, (-unsafe_alloc($1, $2).size + unsafe_alloc($1, $2).capacity))
fn mmx::vm::binary_t::alloc sig=(const~unsigned~long
each data(unsafe_alloc($0, $1), 0)
each memset(data(unsafe_alloc($0, $1), 0), 0, unsafe_alloc($0, $1).capacity)
each unsafe_alloc($0, $1).size = u32($0)
never throw …
exit {did memset(data(unsafe_alloc($0, $1), 0), 0, unsafe_alloc($0, $1).capacity)}
exit {did unsafe_alloc($0, $1).size = u32($0)}
exit {ret = unsafe_alloc($0, $1)}
at memset(data(unsafe_alloc($0, $1), 0), 0, unsafe_alloc($0, $1).capacity)
at unsafe_alloc($0, $1).size = u32($0)
fn vnx::read sig=TypeInput file=src/vm/varptr_t.cpp
each read($0, %vector<unsignedchar>, $2, $3) ;; {at($3, 0) == vnx::CODE_ALT_LIST} | {at($3, 0) == vnx::CODE_LIST}
each deserialize(0, data(%vector<unsignedchar>), size(%vector<unsignedchar>), false, false) ;; {at($3, 0) == vnx::CODE_ALT_LIST} | {at($3, 0) == vnx::CODE_LIST}
each read($0, ctor(string), $2, $3) ;; {at($3, 0) == vnx::CODE_ALT_STRING} | {at($3, 0) == vnx::CODE_STRING}
each read($0, %Variant, $2, $3) ;; {at($3, 0) == vnx::CODE_ALT_DYNAMIC} | {at($3, 0) == vnx::CODE_DYNAMIC}
each deserialize(0, data(to(%Variant)), size(to(%Variant)), false, false) ;; {at($3, 0) == vnx::CODE_ALT_DYNAMIC} | {at($3, 0) == vnx::CODE_DYNAMIC}
each skip($0, $2, $3) ;; !{at($3, 0) == vnx::CODE_LIST} ;; !{at($3, 0) == vnx::CODE_ALT_LIST} ;; !{at($3, 0) == vnx::CODE_STRING} ;; !{at($3, 0) == vnx::CODE_ALT_STRING} ;; !{at($3, 0) == vnx::CODE_DYNAMIC} ;; !{at($3, 0) == vnx::CODE_ALT_DYNAMIC}
never throw …
exit !{at($3, 0) == vnx::CODE_ALT_DYNAMIC} | {at($3, 0) == vnx::CODE_ALT_LIST} | {at($3, 0) == vnx::CODE_ALT_STRING} | {at($3, 0) == vnx::CODE_LIST} | {at($3, 0) == vnx::CODE_STRING} | {out $0 = out(read‥, %Variant, $2, $3)}
exit !{at($3, 0) == vnx::CODE_ALT_LIST} | {out $0 = out(read‥, %vector<unsignedchar>, $2, $3)}
exit !{at($3, 0) == vnx::CODE_ALT_STRING} | {at($3, 0) == vnx::CODE_ALT_LIST} | {at($3, 0) == vnx::CODE_LIST} | {out $0 = out(read‥, ctor(string), $2, $3)}
exit !{at($3, 0) == vnx::CODE_DYNAMIC} | {at($3, 0) == vnx::CODE_ALT_LIST} | {at($3, 0) == vnx::CODE_ALT_STRING} | {at($3, 0) == vnx::CODE_LIST} | {at($3, 0) == vnx::CODE_STRING} | {out $0 = out(read‥, %Variant, $2, $3)}
exit !{at($3, 0) == vnx::CODE_LIST} | {out $0 = out(read‥, %vector<unsignedchar>, $2, $3)}
exit !{at($3, 0) == vnx::CODE_STRING} | {at($3, 0) == vnx::CODE_ALT_LIST} | {at($3, 0) == vnx::CODE_LIST} | {out $0 = out(read‥, ctor(string), $2, $3)}
exit !{at($3, 0) == vnx::CODE_ALT_DYNAMIC} | {at($3, 0) == vnx::CODE_ALT_LIST} | {at($3, 0) == vnx::CODE_ALT_STRING} | {at($3, 0) == vnx::CODE_LIST} | {at($3, 0) == vnx::CODE_STRING} | {out $1 = ctor(vm::varptr_t, out(deserialize‥, data(to(%Variant)), size(to(%Variant)), false, false))}
exit !{at($3, 0) == vnx::CODE_ALT_LIST} | {out $1 = ctor(vm::varptr_t, out(deserialize‥, data(%vector<unsignedchar>), size(%vector<unsignedchar>), false, false))}
exit !{at($3, 0) == vnx::CODE_ALT_STRING} | {at($3, 0) == vnx::CODE_ALT_LIST} | {at($3, 0) == vnx::CODE_LIST} | {out $1 = ctor(vm::varptr_t, to_binary(out(read‥, $0, $2, $3), vm::TYPE_STRING))}
exit !{at($3, 0) == vnx::CODE_DYNAMIC} | {at($3, 0) == vnx::CODE_ALT_LIST} | {at($3, 0) == vnx::CODE_ALT_STRING} | {at($3, 0) == vnx::CODE_LIST} | {at($3, 0) == vnx::CODE_STRING} | {out $1 = ctor(vm::varptr_t, out(deserialize‥, data(to(%Variant)), size(to(%Variant)), false, false))}
exit !{at($3, 0) == vnx::CODE_LIST} | {out $1 = ctor(vm::varptr_t, out(deserialize‥, data(%vector<unsignedchar>), size(%vector<unsignedchar>), false, false))}
exit !{at($3, 0) == vnx::CODE_STRING} | {at($3, 0) == vnx::CODE_ALT_LIST} | {at($3, 0) == vnx::CODE_LIST} | {out $1 = ctor(vm::varptr_t, to_binary(out(read‥, $0, $2, $3), vm::TYPE_STRING))}
exit !{at($3, 0) == vnx::CODE_ALT_LIST} | {did deserialize(0, data(%vector<unsignedchar>), size(%vector<unsignedchar>), false, false)}
exit !{at($3, 0) == vnx::CODE_ALT_LIST} | {did read($0, %vector<unsignedchar>, $2, $3)}
exit !{at($3, 0) == vnx::CODE_LIST} | {did deserialize(0, data(%vector<unsignedchar>), size(%vector<unsignedchar>), false, false)}
exit !{at($3, 0) == vnx::CODE_LIST} | {did read($0, %vector<unsignedchar>, $2, $3)}
exit !{at($3, 0) == vnx::CODE_ALT_STRING} | {at($3, 0) == vnx::CODE_ALT_LIST} | {at($3, 0) == vnx::CODE_LIST} | {did read($0, ctor(string), $2, $3)}
exit !{at($3, 0) == vnx::CODE_STRING} | {at($3, 0) == vnx::CODE_ALT_LIST} | {at($3, 0) == vnx::CODE_LIST} | {did read($0, ctor(string), $2, $3)}
at read($0, %vector<unsignedchar>, $2, $3) ;; {at($3, 0) == vnx::CODE_ALT_LIST} | {at($3, 0) == vnx::CODE_LIST}
at deserialize(0, data(%vector<unsignedchar>), size(%vector<unsignedchar>), false, false) ;; {at($3, 0) == vnx::CODE_ALT_LIST} | {at($3, 0) == vnx::CODE_LIST}
at read($0, ctor(string), $2, $3) ;; {at($3, 0) == vnx::CODE_ALT_STRING} | {at($3, 0) == vnx::CODE_STRING}
at read($0, %Variant, $2, $3) ;; {at($3, 0) == vnx::CODE_ALT_DYNAMIC} | {at($3, 0) == vnx::CODE_DYNAMIC}
at deserialize(0, data(to(%Variant)), size(to(%Variant)), false, false) ;; {at($3, 0) == vnx::CODE_ALT_DYNAMIC} | {at($3, 0) == vnx::CODE_DYNAMIC}
at skip($0, $2, $3) ;; !{at($3, 0) == vnx::CODE_LIST} ;; !{at($3, 0) == vnx::CODE_ALT_LIST} ;; !{at($3, 0) == vnx::CODE_STRING} ;; !{at($3, 0) == vnx::CODE_ALT_STRING} ;; !{at($3, 0) == vnx::CODE_DYNAMIC} ;; !{at($3, 0) == vnx::CODE_ALT_DYNAMIC}
fn vnx::read sig=istream file=src/vm/varptr_t.cpp
each read($0, %Variant)
never throw …
exit {did read($0, %Variant)}
exit {out $0 = out(read‥, %Variant)}
exit !{is_bool(%Variant)} | {is_null(%Variant)} | {out $1 = ctor(vm::varptr_t, new(vm::var_t,default_delete<vm::var_t>, ite({to(%Variant)}, vm::TYPE_TRUE, vm::TYPE_FALSE)))}
exit !{is_double(%Variant)} | {is_bool(%Variant)} | {is_null(%Variant)} | {out $1 = ctor(vm::varptr_t, new(vm::uint_t,default_delete<vm::uint_t>, to(%Variant)))}
exit !{is_long(%Variant)} | {is_bool(%Variant)} | {is_null(%Variant)} | {out $1 = ctor(vm::varptr_t, new(vm::uint_t,default_delete<vm::uint_t>, to(%Variant)))}
exit !{is_null(%Variant)} | {out $1 = ctor(vm::varptr_t, new(vm::var_t,default_delete<vm::var_t>))}
exit !{is_ulong(%Variant)} | {is_bool(%Variant)} | {is_null(%Variant)} | {out $1 = ctor(vm::varptr_t, new(vm::uint_t,default_delete<vm::uint_t>, to(%Variant)))}
at read($0, %Variant)
fn vnx::write sig=TypeOutput file=src/vm/varptr_t.cpp
each write($0, u32(serialize(ite({$1}, $1, ctor(vm::varptr_t, new(vm::var_t,default_delete<vm::var_t>))), false, false).second), 0, 0)
each write(out(write‥, u32(serialize(ite({$1}, $1, ctor(vm::varptr_t, new(vm::var_t,default_delete<vm::var_t>))), false, false).second), 0, 0), serialize(ite({$1}, $1, ctor(vm::varptr_t, new(vm::var_t,default_delete<vm::var_t>))), false, false).first, serialize(ite({$1}, $1, ctor(vm::varptr_t, new(vm::var_t,default_delete<vm::var_t>))), false, false).second)
never throw …
exit {did write($0, u32(serialize(ite({$1}, $1, ctor(vm::varptr_t, new(vm::var_t,default_delete<vm::var_t>))), false, false).second), 0, 0)}
exit {did write(out(write‥, u32(serialize(ite({$1}, $1, ctor(vm::varptr_t, new(vm::var_t,default_delete<vm::var_t>))), false, false).second), 0, 0), serialize(ite({$1}, $1, ctor(vm::varptr_t, new(vm::var_t,default_delete<vm::var_t>))), false, false).first, serialize(ite({$1}, $1, ctor(vm::varptr_t, new(vm::var_t,default_delete<vm::var_t>))), false, false).second)}
exit {out $0 = out(write‥, u32(serialize(ite({$1}, $1, ctor(vm::varptr_t, new(vm::var_t,default_delete<vm::var_t>))), false, false).second), 0, 0)}
at write($0, u32(serialize(ite({$1}, $1, ctor(vm::varptr_t, new(vm::var_t,default_delete<vm::var_t>))), false, false).second), 0, 0)
at write(out(write‥, u32(serialize(ite({$1}, $1, ctor(vm::varptr_t, new(vm::var_t,default_delete<vm::var_t>))), false, false).second), 0, 0), serialize(ite({$1}, $1, ctor(vm::varptr_t, new(vm::var_t,default_delete<vm::var_t>))), false, false).first, serialize(ite({$1}, $1, ctor(vm::varptr_t, new(vm::var_t,default_delete<vm::var_t>))), false, false).second)
fn mmx::vm::serialize sig=instr_t
each at(%unordered_map<unsignedint,unsignedint>, elem($0).a) = (at(%unordered_map<unsignedint,unsignedint>, elem($0).a) + 1) ;; {get_opcode_info(elem($0).code).nargs}
each at(%unordered_map<unsignedint,unsignedint>, elem($0).b) = (at(%unordered_map<unsignedint,unsignedint>, elem($0).b) + 1) ;; {1 < get_opcode_info(elem($0).code).nargs}
each at(%unordered_map<unsignedint,unsignedint>, elem($0).c) = (at(%unordered_map<unsignedint,unsignedint>, elem($0).c) + 1) ;; {2 < get_opcode_info(elem($0).code).nargs}
each at(%unordered_map<unsignedint,unsignedint>, elem($0).d) = (at(%unordered_map<unsignedint,unsignedint>, elem($0).d) + 1) ;; {3 < get_opcode_info(elem($0).code).nargs}
each at(%unordered_map<unsignedint,unsignedint>, encode_instr(elem($0))) = (at(%unordered_map<unsignedint,unsignedint>, encode_instr(elem($0))) + 1)
each push_back(%vector<pair<unsignedint,unsignedint>>, elem(%unordered_map<unsignedint,unsignedint>)) ;; {1 < elem(%unordered_map<unsignedint,unsignedint>).second}
each sort(begin(%vector<pair<unsignedint,unsignedint>>), end(%vector<pair<unsignedint,unsignedint>>), by(!{$cb0.second == $cb1.second} | {$cb0.first < $cb1.first} && {$cb0.first < $cb1.first} | {$cb1.second < $cb0.second} && {$cb0.second == $cb1.second} | {$cb1.second < $cb0.second}))
each resize(%vector<pair<unsignedint,unsignedint>>, min(33022, size(%vector<pair<unsignedint,unsignedint>>)))
each at(%unordered_map<unsignedint,pair<unsignedint,unsignedchar>>, elem(%vector<pair<unsignedint,unsignedint>>).first) = pair(idx(%vector<pair<unsignedint,unsignedint>>), 1) ;; {idx(%vector<pair<unsignedint,unsignedint>>) < size(%vector<pair<unsignedint,unsignedint>>)} ;; !{254 < idx(%vector<pair<unsignedint,unsignedint>>)}
each at(%unordered_map<unsignedint,pair<unsignedint,unsignedchar>>, elem(%vector<pair<unsignedint,unsignedint>>).first) = pair((((idx(%vector<pair<unsignedint,unsignedint>>) + -255) * 256) | 255), 3) ;; {idx(%vector<pair<unsignedint,unsignedint>>) < size(%vector<pair<unsignedint,unsignedint>>)} ;; {254 < idx(%vector<pair<unsignedint,unsignedint>>)}
each write(%TypeOutput, 1, 0, 0)
each write(%TypeOutput, u32(size(%vector<pair<unsignedint,unsignedint>>)), 0, 0)
each write(%TypeOutput, elem(%vector<pair<unsignedint,unsignedint>>).first, 0, 0)
each write(%TypeOutput, u32(size($0)), 0, 0)
each encode_symbol(%TypeOutput, encode_instr(elem($0)), %unordered_map<unsignedint,pair<unsignedint,unsignedchar>>)
each encode_symbol(%TypeOutput, elem($0).a, %unordered_map<unsignedint,pair<unsignedint,unsignedchar>>) ;; {get_opcode_info(elem($0).code).nargs}
each encode_symbol(%TypeOutput, elem($0).b, %unordered_map<unsignedint,pair<unsignedint,unsignedchar>>) ;; {1 < get_opcode_info(elem($0).code).nargs}
each encode_symbol(%TypeOutput, elem($0).c, %unordered_map<unsignedint,pair<unsignedint,unsignedchar>>) ;; {2 < get_opcode_info(elem($0).code).nargs}
each encode_symbol(%TypeOutput, elem($0).d, %unordered_map<unsignedint,pair<unsignedint,unsignedchar>>) ;; {3 < get_opcode_info(elem($0).code).nargs}
never break($0)
never break(%unordered_map<unsignedint,unsignedint>)
never break(%vector<pair<unsignedint,unsignedint>>)
never throw …
exit !{idx(%vector<pair<unsignedint,unsignedint>>) < size(%vector<pair<unsignedint,unsignedint>>)}
exit {did at(%unordered_map<unsignedint,unsignedint>, encode_instr(elem($0))) = (at(%unordered_map<unsignedint,unsignedint>, encode_instr(elem($0))) + 1)}
exit {did encode_symbol(%TypeOutput, encode_instr(elem($0)), %unordered_map<unsignedint,pair<unsignedint,unsignedchar>>)}
exit {did resize(%vector<pair<unsignedint,unsignedint>>, min(33022, size(%vector<pair<unsignedint,unsignedint>>)))}
exit {did sort(begin(%vector<pair<unsignedint,unsignedint>>), end(%vector<pair<unsignedint,unsignedint>>), by(!{$cb0.second == $cb1.second} | {$cb0.first < $cb1.first} && {$cb0.first < $cb1.first} | {$cb1.second < $cb0.second} && {$cb0.second == $cb1.second} | {$cb1.second < $cb0.second}))}
exit {did write(%TypeOutput, 1, 0, 0)}
exit {did write(%TypeOutput, elem(%vector<pair<unsignedint,unsignedint>>).first, 0, 0)}
exit {did write(%TypeOutput, u32(size($0)), 0, 0)}
exit {did write(%TypeOutput, u32(size(%vector<pair<unsignedint,unsignedint>>)), 0, 0)}
exit {ret = %vector<unsignedchar>}
exit !{1 < elem(%unordered_map<unsignedint,unsignedint>).second} | {did push_back(%vector<pair<unsignedint,unsignedint>>, elem(%unordered_map<unsignedint,unsignedint>))}
exit !{1 < get_opcode_info(elem($0).code).nargs} | {did at(%unordered_map<unsignedint,unsignedint>, elem($0).b) = (at(%unordered_map<unsignedint,unsignedint>, elem($0).b) + 1)}
exit !{1 < get_opcode_info(elem($0).code).nargs} | {did encode_symbol(%TypeOutput, elem($0).b, %unordered_map<unsignedint,pair<unsignedint,unsignedchar>>)}
exit !{2 < get_opcode_info(elem($0).code).nargs} | {did at(%unordered_map<unsignedint,unsignedint>, elem($0).c) = (at(%unordered_map<unsignedint,unsignedint>, elem($0).c) + 1)}
exit !{2 < get_opcode_info(elem($0).code).nargs} | {did encode_symbol(%TypeOutput, elem($0).c, %unordered_map<unsignedint,pair<unsignedint,unsignedchar>>)}
exit !{254 < idx(%vector<pair<unsignedint,unsignedint>>)} | {did at(%unordered_map<unsignedint,pair<unsignedint,unsignedchar>>, elem(%vector<pair<unsignedint,unsignedint>>).first) = pair((((idx(%vector<pair<unsignedint,unsignedint>>) + -255) * 256) | 255), 3)}
exit !{3 < get_opcode_info(elem($0).code).nargs} | {did at(%unordered_map<unsignedint,unsignedint>, elem($0).d) = (at(%unordered_map<unsignedint,unsignedint>, elem($0).d) + 1)}
exit !{3 < get_opcode_info(elem($0).code).nargs} | {did encode_symbol(%TypeOutput, elem($0).d, %unordered_map<unsignedint,pair<unsignedint,unsignedchar>>)}
exit !{get_opcode_info(elem($0).code).nargs} | {did at(%unordered_map<unsignedint,unsignedint>, elem($0).a) = (at(%unordered_map<unsignedint,unsignedint>, elem($0).a) + 1)}
exit !{get_opcode_info(elem($0).code).nargs} | {did encode_symbol(%TypeOutput, elem($0).a, %unordered_map<unsignedint,pair<unsignedint,unsignedchar>>)}
exit {254 < idx(%vector<pair<unsignedint,unsignedint>>)} | {did at(%unordered_map<unsignedint,pair<unsignedint,unsignedchar>>, elem(%vector<pair<unsignedint,unsignedint>>).first) = pair(idx(%vector<pair<unsignedint,unsignedint>>), 1)}
at at(%unordered_map<unsignedint,unsignedint>, elem($0).a) = (at(%unordered_map<unsignedint,unsignedint>, elem($0).a) + 1) ;; {get_opcode_info(elem($0).code).nargs}
at at(%unordered_map<unsignedint,unsignedint>, elem($0).b) = (at(%unordered_map<unsignedint,unsignedint>, elem($0).b) + 1) ;; {1 < get_opcode_info(elem($0).code).nargs}
at at(%unordered_map<unsignedint,unsignedint>, elem($0).c) = (at(%unordered_map<unsignedint,unsignedint>, elem($0).c) + 1) ;; {2 < get_opcode_info(elem($0).code).nargs}
at at(%unordered_map<unsignedint,unsignedint>, elem($0).d) = (at(%unordered_map<unsignedint,unsignedint>, elem($0).d) + 1) ;; {3 < get_opcode_info(elem($0).code).nargs}
at at(%unordered_map<unsignedint,unsignedint>, encode_instr(elem($0))) = (at(%unordered_map<unsignedint,unsignedint>, encode_instr(elem($0))) + 1)
at push_back(%vector<pair<unsignedint,unsignedint>>, elem(%unordered_map<unsignedint,unsignedint>)) ;; {1 < elem(%unordered_map<unsignedint,unsignedint>).second}
at sort(begin(%vector<pair<unsignedint,unsignedint>>), end(%vector<pair<unsignedint,unsignedint>>), by(!{$cb0.second == $cb1.second} | {$cb0.first < $cb1.first} && {$cb0.first < $cb1.first} | {$cb1.second < $cb0.second} && {$cb0.second == $cb1.second} | {$cb1.second < $cb0.second}))
at resize(%vector<pair<unsignedint,unsignedint>>, min(33022, size(%vector<pair<unsignedint,unsignedint>>)))
at at(%unordered_map<unsignedint,pair<unsignedint,unsignedchar>>, elem(%vector<pair<unsignedint,unsignedint>>).first) = pair(idx(%vector<pair<unsignedint,unsignedint>>), 1) ;; {idx(%vector<pair<unsignedint,unsignedint>>) < size(%vector<pair<unsignedint,unsignedint>>)} ;; !{254 < idx(%vector<pair<unsignedint,unsignedint>>)}
at at(%unordered_map<unsignedint,pair<unsignedint,unsignedchar>>, elem(%vector<pair<unsignedint,unsignedint>>).first) = pair((((idx(%vector<pair<unsignedint,unsignedint>>) + -255) * 256) | 255), 3) ;; {idx(%vector<pair<unsignedint,unsignedint>>) < size(%vector<pair<unsignedint,unsignedint>>)} ;; {254 < idx(%vector<pair<unsignedint,unsignedint>>)}
at write(%TypeOutput, 1, 0, 0)
at write(%TypeOutput, u32(size(%vector<pair<unsignedint,unsignedint>>)), 0, 0)
at write(%TypeOutput, elem(%vector<pair<unsignedint,unsignedint>>).first, 0, 0)
at write(%TypeOutput, u32(size($0)), 0, 0)
at encode_symbol(%TypeOutput, encode_instr(elem($0)), %unordered_map<unsignedint,pair<unsignedint,unsignedchar>>)
at encode_symbol(%TypeOutput, elem($0).a, %unordered_map<unsignedint,pair<unsignedint,unsignedchar>>) ;; {get_opcode_info(elem($0).code).nargs}
at encode_symbol(%TypeOutput, elem($0).b, %unordered_map<unsignedint,pair<unsignedint,unsignedchar>>) ;; {1 < get_opcode_info(elem($0).code).nargs}
at encode_symbol(%TypeOutput, elem($0).c, %unordered_map<unsignedint,pair<unsignedint,unsignedchar>>) ;; {2 < get_opcode_info(elem($0).code).nargs}
at encode_symbol(%TypeOutput, elem($0).d, %unordered_map<unsignedint,pair<unsignedint,unsignedchar>>) ;; {3 < get_opcode_info(elem($0).code).nargs}
at flush(%TypeOutput)
fn mmx::vm::deserialize sig=instr_t
never break(loop)
each read(%TypeInput, 0, 0, 0)
each read(%TypeInput, 0, 0, 0) ;; {1 == out(read‥, %TypeInput, 0, 0)}
each read(%TypeInput, at(%vector<unsignedint>, idx(out(read‥, %TypeInput, 0, 0))), 0, 0) ;; {1 == out(read‥, %TypeInput, 0, 0)} ;; !{33022 < out(read‥, %TypeInput, 0, 0)}
each read(%TypeInput, 0, 0, 0) ;; {1 == out(read‥, %TypeInput, 0, 0)} ;; !{33022 < out(read‥, %TypeInput, 0, 0)}
each decode_instr(%TypeInput, %vector<unsignedint>) ;; {1 == out(read‥, %TypeInput, 0, 0)} ;; !{33022 < out(read‥, %TypeInput, 0, 0)}
each decode_symbol(%TypeInput, %vector<unsignedint>) ;; {1 == out(read‥, %TypeInput, 0, 0)} ;; !{33022 < out(read‥, %TypeInput, 0, 0)} ;; {get_opcode_info(decode_instr(%TypeInput, %vector<unsignedint>).code).nargs}
each decode_instr(%TypeInput, %vector<unsignedint>).a = decode_symbol(%TypeInput, %vector<unsignedint>) ;; {1 == out(read‥, %TypeInput, 0, 0)} ;; !{33022 < out(read‥, %TypeInput, 0, 0)} ;; {get_opcode_info(decode_instr(%TypeInput, %vector<unsignedint>).code).nargs}
each decode_symbol(%TypeInput, %vector<unsignedint>) ;; {1 == out(read‥, %TypeInput, 0, 0)} ;; !{33022 < out(read‥, %TypeInput, 0, 0)} ;; {1 < get_opcode_info(decode_instr(%TypeInput, %vector<unsignedint>).code).nargs}
each decode_instr(%TypeInput, %vector<unsignedint>).b = decode_symbol(%TypeInput, %vector<unsignedint>) ;; {1 == out(read‥, %TypeInput, 0, 0)} ;; !{33022 < out(read‥, %TypeInput, 0, 0)} ;; {1 < get_opcode_info(decode_instr(%TypeInput, %vector<unsignedint>).code).nargs}
each decode_symbol(%TypeInput, %vector<unsignedint>) ;; {1 == out(read‥, %TypeInput, 0, 0)} ;; !{33022 < out(read‥, %TypeInput, 0, 0)} ;; {2 < get_opcode_info(decode_instr(%TypeInput, %vector<unsignedint>).code).nargs}
each decode_instr(%TypeInput, %vector<unsignedint>).c = decode_symbol(%TypeInput, %vector<unsignedint>) ;; {1 == out(read‥, %TypeInput, 0, 0)} ;; !{33022 < out(read‥, %TypeInput, 0, 0)} ;; {2 < get_opcode_info(decode_instr(%TypeInput, %vector<unsignedint>).code).nargs}
each decode_symbol(%TypeInput, %vector<unsignedint>) ;; {1 == out(read‥, %TypeInput, 0, 0)} ;; !{33022 < out(read‥, %TypeInput, 0, 0)} ;; {3 < get_opcode_info(decode_instr(%TypeInput, %vector<unsignedint>).code).nargs}
each decode_instr(%TypeInput, %vector<unsignedint>).d = decode_symbol(%TypeInput, %vector<unsignedint>) ;; {1 == out(read‥, %TypeInput, 0, 0)} ;; !{33022 < out(read‥, %TypeInput, 0, 0)} ;; {3 < get_opcode_info(decode_instr(%TypeInput, %vector<unsignedint>).code).nargs}
each push_back($0, decode_instr(%TypeInput, %vector<unsignedint>)) ;; {1 == out(read‥, %TypeInput, 0, 0)} ;; !{33022 < out(read‥, %TypeInput, 0, 0)}
raise !{1 == out(read#v, %TypeInput, 0, 0)}
raise {1 == out(read#v, %TypeInput, 0, 0)} ;; {33022 < out(read#v, %TypeInput, 0, 0)}
exit !{33022 < out(read‥, %TypeInput, 0, 0)}
exit {1 == out(read‥, %TypeInput, 0, 0)}
exit {did read(%TypeInput, 0, 0, 0)}
exit {did read(%TypeInput, at(%vector<unsignedint>, idx(out(read‥, %TypeInput, 0, 0))), 0, 0)}
exit {ret = get_input_pos(%TypeInput)}
at read(%TypeInput, 0, 0, 0)
at read(%TypeInput, at(%vector<unsignedint>, idx(out(read‥, %TypeInput, 0, 0))), 0, 0)
at decode_instr(%TypeInput, %vector<unsignedint>)
at decode_symbol(%TypeInput, %vector<unsignedint>)
at decode_instr(%TypeInput, %vector<unsignedint>).a = decode_symbol(%TypeInput, %vector<unsignedint>) ;; {get_opcode_info(decode_instr(%TypeInput, %vector<unsignedint>).code).nargs}
at decode_instr(%TypeInput, %vector<unsignedint>).b = decode_symbol(%TypeInput, %vector<unsignedint>) ;; {1 < get_opcode_info(decode_instr(%TypeInput, %vector<unsignedint>).code).nargs}
at decode_instr(%TypeInput, %vector<unsignedint>).c = decode_symbol(%TypeInput, %vector<unsignedint>) ;; {2 < get_opcode_info(decode_instr(%TypeInput, %vector<unsignedint>).code).nargs}
at decode_instr(%TypeInput, %vector<unsignedint>).d = decode_symbol(%TypeInput, %vector<unsignedint>) ;; {3 < get_opcode_info(decode_instr(%TypeInput, %vector<unsignedint>).code).nargs}
at push_back($0, decode_instr(%TypeInput, %vector<unsignedint>))
fn mmx::vm::decode_symbol
each read($0, &, 1)
each read($0, &, 2) ;; {254 < out(read‥, 1)}
each read($0, &, 4) ;; {254 < out(read‥, 1)} ;; {32766 < out(read‥, 2)} ;; {65534 < out(read‥, 2)}
raise !{254 < out(read#v, 1)} ;; !{out(read#v, 1) < size($1)}
raise {254 < out(read#v, 1)} ;; !{32766 < out(read#v, 2)} ;; !{u16((out(read#v, 2) + 255)) < size($1)}
exit {did read($0, &, 1)}
exit !{254 < out(read‥, 1)} | !{32766 < out(read‥, 2)} | !{65534 < out(read‥, 2)} | {ret = out(read‥, 4)}
exit !{254 < out(read‥, 1)} | !{32766 < out(read‥, 2)} | {65534 < out(read‥, 2)} | {ret = (32767 & out(read‥, 2))}
exit !{254 < out(read‥, 1)} | {32766 < out(read‥, 2)} | {ret = at($1, u16((out(read‥, 2) + 255)))}
exit {254 < out(read‥, 1)} | {ret = at($1, out(read‥, 1))}
exit !{254 < out(read‥, 1)} | {did read($0, &, 2)}
exit {254 < out(read‥, 1)} | {out(read‥, 1) < size($1)}
exit !{254 < out(read‥, 1)} | {u16((out(read‥, 2) + 255)) < size($1)} | {32766 < out(read‥, 2)}
exit !{254 < out(read‥, 1)} | !{32766 < out(read‥, 2)} | !{65534 < out(read‥, 2)} | {did read($0, &, 4)}
at read($0, &, 1)
at read($0, &, 2) ;; {254 < out(read‥, 1)}
at read($0, &, 4) ;; {254 < out(read‥, 1)} ;; {32766 < out(read‥, 2)} ;; {65534 < out(read‥, 2)}
fn mmx::vm::encode_symbol
each write($0, at($2, $1).first, at($2, $1).second) ;; {has($2, $1)}
each write($0, ((($1 | 32768) * 256) | 255), 3) ;; !{has($2, $1)} ;; !{32766 < $1}
each write($0, (($1 * 16777216) | 16777215), 7) ;; !{has($2, $1)} ;; {32766 < $1}
never throw …
exit !{has($2, $1)} | {did write($0, at($2, $1).first, at($2, $1).second)}
exit !{32766 < $1} | {did write($0, (($1 * 16777216) | 16777215), 7)} | {has($2, $1)}
exit {32766 < $1} | {did write($0, ((($1 | 32768) * 256) | 255), 3)} | {has($2, $1)}
at write($0, at($2, $1).first, at($2, $1).second) ;; {has($2, $1)}
at write($0, ((($1 | 32768) * 256) | 255), 3) ;; !{has($2, $1)} ;; !{32766 < $1}
at write($0, (($1 * 16777216) | 16777215), 7) ;; !{has($2, $1)} ;; {32766 < $1}
fn mmx::vm::decode_instr
each decode_symbol($0, $1)
each %vm::instr_t.code = (decode_symbol($0, $1) % 256)
each %vm::instr_t.flags = u8(((decode_symbol($0, $1) / 256) % 256))
never throw …
exit {did %vm::instr_t.code = (decode_symbol($0, $1) % 256)}
exit {did %vm::instr_t.flags = u8(((decode_symbol($0, $1) / 256) % 256))}
exit {did decode_symbol($0, $1)}
exit {out $0 = out(decode_symbol‥, $1)}
exit {ret = %vm::instr_t}
at decode_symbol($0, $1)
at %vm::instr_t.code = (decode_symbol($0, $1) % 256)
at %vm::instr_t.flags = u8(((decode_symbol($0, $1) / 256) % 256))
fn mmx::vm::encode_instr
never throw …
exit {ret = ($0.code | ($0.flags * 256))}
fn mmx::vm::get_opcode_info
never throw …
exit {ret = at(g_opcode_info, $0)}
