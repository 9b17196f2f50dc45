tus src/vm_interface.cpp
fn mmx::vm::AssignTo::AssignTo
each %vm::AssignTo::frame_t.dst = $1
each push_back(@stack, %vm::AssignTo::frame_t)
never throw …
exit {did %vm::AssignTo::frame_t.dst = $1}
exit {did @engine := $0}
exit {did push_back(@stack, %vm::AssignTo::frame_t)}
at @engine := $0
at %vm::AssignTo::frame_t.dst = $1
at push_back(@stack, %vm::AssignTo::frame_t)
fn mmx::vm::AssignTo::frame_t::frame_t
never throw …
exit {did @dst := $0}
exit {did @lookup := false}
at @dst := $0
at @lookup := false
fn mmx::vm::AssignTo::handle
each lookup(@engine, $0, false) ;; {back(@stack).lookup}
each back(@stack).key = lookup(@engine, $0, false) ;; {back(@stack).lookup}
each write_entry(@engine, back(@stack).dst, back(@stack).key, $0) ;; !{back(@stack).lookup} ;; {back(@stack).key}
each assign(@engine, back(@stack).dst, $0) ;; !{back(@stack).lookup} ;; !{back(@stack).key}
raise {back(@stack).lookup} ;; !{$0.type == vm::TYPE_UINT} ;; !{$0.type == vm::TYPE_STRING} ;; !{$0.type == vm::TYPE_BINARY}
exit !{back(@stack).lookup} | {did back(@stack).key = lookup(@engine, $0, false)}
exit !{back(@stack).lookup} | {did lookup(@engine, $0, false)}
exit !{back(@stack).key} | {back(@stack).lookup} | {did write_entry(@engine, back(@stack).dst, back(@stack).key, $0)}
exit {back(@stack).key} | {back(@stack).lookup} | {did assign(@engine, back(@stack).dst, $0)}
exit !{back(@stack).lookup} | {$0.type == vm::TYPE_BINARY} | {$0.type == vm::TYPE_STRING} | {$0.type == vm::TYPE_UINT}
at lookup(@engine, $0, false) ;; {back(@stack).lookup} ;; {$0.type == vm::TYPE_BINARY} | {$0.type == vm::TYPE_STRING} | {$0.type == vm::TYPE_UINT}
at back(@stack).key = lookup(@engine, $0, false) ;; {back(@stack).lookup} ;; {$0.type == vm::TYPE_BINARY} | {$0.type == vm::TYPE_STRING} | {$0.type == vm::TYPE_UINT}
at write_entry(@engine, back(@stack).dst, back(@stack).key, $0) ;; !{back(@stack).lookup} ;; {back(@stack).key}
at assign(@engine, back(@stack).dst, $0) ;; !{back(@stack).lookup} ;; !{back(@stack).key}
fn mmx::vm::AssignTo::list_begin
each alloc(@engine) ;; {size(@stack) < MAX_COPY_RECURSION}
each assign(@engine, alloc(@engine), new(vm::array_t,default_delete<vm::array_t>, $0)) ;; {size(@stack) < MAX_COPY_RECURSION}
each push_back(@stack, alloc(@engine)) ;; {size(@stack) < MAX_COPY_RECURSION}
raise !{size(@stack) < MAX_COPY_RECURSION}
exit {did alloc(@engine)}
exit {did assign(@engine, alloc(@engine), new(vm::array_t,default_delete<vm::array_t>, $0))}
exit {did push_back(@stack, alloc(@engine))}
exit {size(@stack) < MAX_COPY_RECURSION}
at alloc(@engine)
at assign(@engine, alloc(@engine), new(vm::array_t,default_delete<vm::array_t>, $0))
at push_back(@stack, alloc(@engine))
fn mmx::vm::AssignTo::list_element
each back(@stack).key = $0
never throw …
exit {did back(@stack).key = $0}
at back(@stack).key = $0
fn mmx::vm::AssignTo::list_end
each pop_back(@stack)
each handle(new(vm::ref_t,default_delete<vm::ref_t>, back(@stack).dst))
never throw …
exit {did handle(new(vm::ref_t,default_delete<vm::ref_t>, back(@stack).dst))}
exit {did pop_back(@stack)}
at pop_back(@stack)
at handle(new(vm::ref_t,default_delete<vm::ref_t>, back(@stack).dst))
fn mmx::vm::AssignTo::map_begin
each alloc(@engine) ;; {size(@stack) < MAX_COPY_RECURSION}
each assign(@engine, alloc(@engine), new(vm::map_t,default_delete<vm::map_t>)) ;; {size(@stack) < MAX_COPY_RECURSION}
each push_back(@stack, alloc(@engine)) ;; {size(@stack) < MAX_COPY_RECURSION}
raise !{size(@stack) < MAX_COPY_RECURSION}
exit {did alloc(@engine)}
exit {did assign(@engine, alloc(@engine), new(vm::map_t,default_delete<vm::map_t>))}
exit {did push_back(@stack, alloc(@engine))}
exit {size(@stack) < MAX_COPY_RECURSION}
at alloc(@engine)
at assign(@engine, alloc(@engine), new(vm::map_t,default_delete<vm::map_t>))
at push_back(@stack, alloc(@engine))
fn mmx::vm::AssignTo::map_end
each pop_back(@stack)
each handle(new(vm::ref_t,default_delete<vm::ref_t>, back(@stack).dst))
never throw …
exit {did handle(new(vm::ref_t,default_delete<vm::ref_t>, back(@stack).dst))}
exit {did pop_back(@stack)}
at pop_back(@stack)
at handle(new(vm::ref_t,default_delete<vm::ref_t>, back(@stack).dst))
fn mmx::vm::AssignTo::map_key
each back(@stack).lookup = true
never throw …
exit {did back(@stack).lookup = true}
at back(@stack).lookup = true
fn mmx::vm::AssignTo::map_value
each back(@stack).lookup = false
never throw …
exit {did back(@stack).lookup = false}
at back(@stack).lookup = false
fn mmx::vm::AssignTo::visit sig=(const~bool~&)
each handle(new(vm::var_t,default_delete<vm::var_t>, ite({$0}, vm::TYPE_TRUE, vm::TYPE_FALSE)))
never throw …
exit {did handle(new(vm::var_t,default_delete<vm::var_t>, ite({$0}, vm::TYPE_TRUE, vm::TYPE_FALSE)))}
at handle(new(vm::var_t,default_delete<vm::var_t>, ite({$0}, vm::TYPE_TRUE, vm::TYPE_FALSE)))
fn mmx::vm::AssignTo::visit sig=(const~unsigned~char~&)
each visit($0)
never throw …
exit {did visit($0)}
at visit($0)
fn mmx::vm::AssignTo::visit sig=(const~unsigned~short~&)
each visit($0)
never throw …
exit {did visit($0)}
at visit($0)
fn mmx::vm::AssignTo::visit sig=(const~unsigned~int~&)
each visit($0)
never throw …
exit {did visit($0)}
at visit($0)
fn mmx::vm::AssignTo::visit sig=(const~unsigned~long~&)
each visit($0)
never throw …
exit {did visit($0)}
at visit($0)
fn mmx::vm::AssignTo::visit sig=(const~signed~char~&)
each visit($0) ;; {-1 < $0}
raise !{-1 < $0}
exit {-1 < $0}
exit {did visit($0)}
at visit($0)
fn mmx::vm::AssignTo::visit sig=(const~short~&)
each visit($0) ;; {-1 < $0}
raise !{-1 < $0}
exit {-1 < $0}
exit {did visit($0)}
at visit($0)
fn mmx::vm::AssignTo::visit sig=(const~int~&)
each visit($0) ;; {-1 < $0}
raise !{-1 < $0}
exit {-1 < $0}
exit {did visit($0)}
at visit($0)
fn mmx::vm::AssignTo::visit sig=(const~long~&)
each visit($0) ;; {-1 < $0}
raise !{-1 < $0}
exit {-1 < $0}
exit {did visit($0)}
at visit($0)
fn mmx::vm::AssignTo::visit sig=(const~float~&)
exit {never returns}
fn mmx::vm::AssignTo::visit sig=(const~double~&)
exit {never returns}
fn mmx::vm::AssignTo::visit sig=(const~std::basic_string<char,~std::char_traits<char>,~std::allocator<char>>~&)
each handle(alloc($0, vm::TYPE_STRING))
never throw …
exit {did handle(alloc($0, vm::TYPE_STRING))}
at handle(alloc($0, vm::TYPE_STRING))
fn mmx::vm::AssignTo::visit sig=(const~unsigned~char~*,~const~unsigned~long)
each handle(alloc($0, $1, vm::TYPE_BINARY))
never throw …
exit {did handle(alloc($0, $1, vm::TYPE_BINARY))}
at handle(alloc($0, $1, vm::TYPE_BINARY))
fn mmx::vm::AssignTo::visit sig=(const~uint256_t~&)
each handle(new(vm::uint_t,default_delete<vm::uint_t>, $0))
never throw …
exit {did handle(new(vm::uint_t,default_delete<vm::uint_t>, $0))}
at handle(new(vm::uint_t,default_delete<vm::uint_t>, $0))
fn mmx::vm::AssignTo::visit_null
each handle(new(vm::var_t,default_delete<vm::var_t>))
never throw …
exit {did handle(new(vm::var_t,default_delete<vm::var_t>))}
at handle(new(vm::var_t,default_delete<vm::var_t>))
fn mmx::vm::assign
each accept(%vm::AssignTo, $2)
never throw …
at ctor:vm::AssignTo($0, $1)
exit {did accept(%vm::AssignTo, $2)}
at accept(%vm::AssignTo, $2)
fn mmx::vm::convert
never break(loop)
each $0.gas_used = ($0.gas_used + INSTR_COST) ;; !{MAX_COPY_RECURSION < ($2 + 1)}
each check_gas($0) ;; !{MAX_COPY_RECURSION < ($2 + 1)}
each read($0, $1.address, false) ;; !{MAX_COPY_RECURSION < ($2 + 1)} ;; {$1} ;; {$1.type == vm::TYPE_REF}
each read_entry($0, $1.address, idx($1.size)) ;; !{MAX_COPY_RECURSION < ($2 + 1)} ;; {$1} ;; {$1.type == vm::TYPE_ARRAY}
each push_back(%vector<Variant>, convert($0, read_entry($0, $1.address, idx($1.size)), ($2 + 1))) ;; !{MAX_COPY_RECURSION < ($2 + 1)} ;; {$1} ;; {$1.type == vm::TYPE_ARRAY}
each read($0, elem(find_entries($0, $1.address)).first, false) ;; !{MAX_COPY_RECURSION < ($2 + 1)} ;; {$1} ;; {$1.type == vm::TYPE_MAP} ;; !{($1.flags & FLAG_STORED)}
each at(%map<Variant,Variant>, convert($0, read($0, elem(find_entries($0, $1.address)).first, false), ($2 + 1))) = convert($0, elem(find_entries($0, $1.address)).second, ($2 + 1)) ;; !{MAX_COPY_RECURSION < ($2 + 1)} ;; {$1} ;; {$1.type == vm::TYPE_MAP} ;; !{($1.flags & FLAG_STORED)}
each at(%Object, to_string_value(elem(%map<Variant,Variant>).first)) = elem(%map<Variant,Variant>).second ;; !{MAX_COPY_RECURSION < ($2 + 1)} ;; {$1} ;; {$1.type == vm::TYPE_MAP} ;; !{($1.flags & FLAG_STORED)} ;; {is_string(elem(%map<Variant,Variant>).first)}
never break(find_entries($0, $1.address))
raise {MAX_COPY_RECURSION < ($2 + 1)}
raise !{MAX_COPY_RECURSION < ($2 + 1)} ;; {$1} ;; {$1.type == vm::TYPE_MAP} ;; {($1.flags & FLAG_STORED)}
exit !{MAX_COPY_RECURSION < ($2 + 1)}
exit {did $0.gas_used = ($0.gas_used + INSTR_COST)}
exit {did check_gas($0)}
exit !{$1.type == vm::TYPE_FALSE} | !{$1} | {MAX_COPY_RECURSION < ($2 + 1)} | {ret = ctor(Variant, false)}
exit !{$1.type == vm::TYPE_NIL} | !{$1} | {MAX_COPY_RECURSION < ($2 + 1)} | {ret = ctor(Variant, 0)}
exit !{$1.type == vm::TYPE_REF} | !{$1} | {MAX_COPY_RECURSION < ($2 + 1)} | {ret = convert($0, read($0, $1.address, false), ($2 + 1))}
exit !{$1.type == vm::TYPE_TRUE} | !{$1} | {MAX_COPY_RECURSION < ($2 + 1)} | {ret = ctor(Variant, true)}
exit !{$1.type == vm::TYPE_UINT} | !{$1} | !{($1.value >> 64)} | {MAX_COPY_RECURSION < ($2 + 1)} | {ret = ctor(Variant, ("0x" ++ str($1.value, 16, 0)))}
exit !{$1.type == vm::TYPE_UINT} | !{$1} | {($1.value >> 64)} | {MAX_COPY_RECURSION < ($2 + 1)} | {ret = ctor(Variant, lower(lower($1.value)))}
exit !{MAX_COPY_RECURSION < ($2 + 1)} | {ret = ctor(Variant)}
exit {$1} | {ret = ctor(Variant)}
exit !{$1.type == vm::TYPE_FALSE} | !{$1} | {ret = ctor(Variant, false)}
exit !{$1.type == vm::TYPE_NIL} | !{$1} | {ret = ctor(Variant, 0)}
exit !{$1.type == vm::TYPE_REF} | !{$1} | {ret = convert($0, read($0, $1.address, false), ($2 + 1))}
exit !{$1.type == vm::TYPE_TRUE} | !{$1} | {ret = ctor(Variant, true)}
exit !{$1.type == vm::TYPE_UINT} | !{$1} | !{($1.value >> 64)} | {ret = ctor(Variant, ("0x" ++ str($1.value, 16, 0)))}
exit !{$1.type == vm::TYPE_UINT} | !{$1} | {($1.value >> 64)} | {ret = ctor(Variant, lower(lower($1.value)))}
at $0.gas_used = ($0.gas_used + INSTR_COST)
at check_gas($0)
at read($0, $1.address, false) ;; {$1} ;; {$1.type == vm::TYPE_REF}
at read_entry($0, $1.address, idx($1.size)) ;; {$1} ;; {$1.type == vm::TYPE_ARRAY}
at push_back(%vector<Variant>, convert($0, read_entry($0, $1.address, idx($1.size)), ($2 + 1))) ;; {$1} ;; {$1.type == vm::TYPE_ARRAY}
at read($0, elem(find_entries($0, $1.address)).first, false) ;; {$1} ;; {$1.type == vm::TYPE_MAP} ;; !{($1.flags & FLAG_STORED)}
at at(%map<Variant,Variant>, convert($0, read($0, elem(find_entries($0, $1.address)).first, false), ($2 + 1))) = convert($0, elem(find_entries($0, $1.address)).second, ($2 + 1)) ;; {$1} ;; {$1.type == vm::TYPE_MAP} ;; !{($1.flags & FLAG_STORED)}
never break(%map<Variant,Variant>) ;; {$1} ;; {$1.type == vm::TYPE_MAP} ;; !{($1.flags & FLAG_STORED)} ;; !{is_string(elem(%map<Variant,Variant>).first)}
at at(%Object, to_string_value(elem(%map<Variant,Variant>).first)) = elem(%map<Variant,Variant>).second ;; {$1} ;; {$1.type == vm::TYPE_MAP} ;; !{($1.flags & FLAG_STORED)} ;; {is_string(elem(%map<Variant,Variant>).first)}
fn mmx::vm::copy sig=(std::shared_ptr<mmx::vm::Engine>,~std::shared_ptr<mmx::vm::Engine>,~const~unsigned~long,~const~unsigned~long~*,~const~mmx::vm::var_t~*,~unsigned~long)
never break(loop)
each alloc($0) ;; !{MAX_COPY_RECURSION < ($5 + 1)} ;; {$4} ;; {$4.type == vm::TYPE_REF}
each copy($0, $1, alloc($0), $4.address, ($5 + 1)) ;; !{MAX_COPY_RECURSION < ($5 + 1)} ;; {$4} ;; {$4.type == vm::TYPE_REF}
each assign($0, $2, new(vm::array_t,default_delete<vm::array_t>, $4.size)) ;; !{MAX_COPY_RECURSION < ($5 + 1)} ;; {$4} ;; {$4.type == vm::TYPE_ARRAY} ;; !{$3}
each read_entry($1, $4.address, idx($4.size)) ;; !{MAX_COPY_RECURSION < ($5 + 1)} ;; {$4} ;; {$4.type == vm::TYPE_ARRAY} ;; !{$3}
each copy($0, $1, $2, idx($4.size), read_entry($1, $4.address, idx($4.size)), ($5 + 1)) ;; !{MAX_COPY_RECURSION < ($5 + 1)} ;; {$4} ;; {$4.type == vm::TYPE_ARRAY} ;; !{$3}
each assign($0, $2, new(vm::map_t,default_delete<vm::map_t>)) ;; !{MAX_COPY_RECURSION < ($5 + 1)} ;; {$4} ;; {$4.type == vm::TYPE_MAP} ;; !{$3} ;; !{($4.flags & FLAG_STORED)}
each read($1, elem(find_entries($1, $4.address)).first, false) ;; !{MAX_COPY_RECURSION < ($5 + 1)} ;; {$4} ;; {$4.type == vm::TYPE_MAP} ;; !{$3} ;; !{($4.flags & FLAG_STORED)}
each lookup($0, read($1, elem(find_entries($1, $4.address)).first, false), false) ;; !{MAX_COPY_RECURSION < ($5 + 1)} ;; {$4} ;; {$4.type == vm::TYPE_MAP} ;; !{$3} ;; !{($4.flags & FLAG_STORED)}
each copy($0, $1, $2, lookup($0, read($1, elem(find_entries($1, $4.address)).first, false), false), elem(find_entries($1, $4.address)).second, ($5 + 1)) ;; !{MAX_COPY_RECURSION < ($5 + 1)} ;; {$4} ;; {$4.type == vm::TYPE_MAP} ;; !{$3} ;; !{($4.flags & FLAG_STORED)}
each write_entry($0, $2, $3, ite((!{$4.type == vm::TYPE_ARRAY} && !{$4.type == vm::TYPE_MAP} && !{$4.type == vm::TYPE_REF} && {$4}), ite((!{$4.type == vm::TYPE_ARRAY} && !{$4.type == vm::TYPE_MAP} && !{$4.type == vm::TYPE_REF} && {$4}), $4, 0), ite((!{$4.type == vm::TYPE_REF} || !{$4}), 0, new(vm::ref_t,default_delete<vm::ref_t>, alloc($0))))) ;; !{MAX_COPY_RECURSION < ($5 + 1)} ;; {$4} ;; {$4.type == vm::TYPE_REF} | {$4} ;; !{$4.type == vm::TYPE_REF} | {$4} ;; !{$4.type == vm::TYPE_ARRAY} | {$4} ;; !{$4.type == vm::TYPE_ARRAY} | {$4.type == vm::TYPE_REF} ;; !{$4.type == vm::TYPE_MAP} | {$4} ;; !{$4.type == vm::TYPE_MAP} | {$4.type == vm::TYPE_REF} ;; {$3}
each write($0, $2, ite((!{$4.type == vm::TYPE_ARRAY} && !{$4.type == vm::TYPE_MAP} && !{$4.type == vm::TYPE_REF} && {$4}), ite((!{$4.type == vm::TYPE_ARRAY} && !{$4.type == vm::TYPE_MAP} && !{$4.type == vm::TYPE_REF} && {$4}), $4, 0), ite((!{$4.type == vm::TYPE_REF} || !{$4}), 0, new(vm::ref_t,default_delete<vm::ref_t>, alloc($0))))) ;; !{MAX_COPY_RECURSION < ($5 + 1)} ;; {$4} ;; {$4.type == vm::TYPE_REF} | {$4} ;; !{$4.type == vm::TYPE_REF} | {$4} ;; !{$4.type == vm::TYPE_ARRAY} | {$4} ;; !{$4.type == vm::TYPE_ARRAY} | {$4.type == vm::TYPE_REF} ;; !{$4.type == vm::TYPE_MAP} | {$4} ;; !{$4.type == vm::TYPE_MAP} | {$4.type == vm::TYPE_REF} ;; !{$3}
each check_gas($0) ;; !{MAX_COPY_RECURSION < ($5 + 1)}
never break(find_entries($1, $4.address))
raise {MAX_COPY_RECURSION < ($5 + 1)}
raise !{MAX_COPY_RECURSION < ($5 + 1)} ;; {$4} ;; {$4.type == vm::TYPE_ARRAY} ;; {$3}
raise !{MAX_COPY_RECURSION < ($5 + 1)} ;; {$4} ;; {$4.type == vm::TYPE_MAP} ;; {$3}
raise !{MAX_COPY_RECURSION < ($5 + 1)} ;; {$4} ;; {$4.type == vm::TYPE_MAP} ;; !{$3} ;; {($4.flags & FLAG_STORED)}
exit !{MAX_COPY_RECURSION < ($5 + 1)}
exit {did check_gas($0)}
exit !{$4.type == vm::TYPE_REF} | !{$4} | {did alloc($0)}
exit !{$4.type == vm::TYPE_REF} | !{$4} | {did copy($0, $1, alloc($0), $4.address, ($5 + 1))}
exit !{$3} | !{$4.type == vm::TYPE_ARRAY} | !{$4} | {$4.type == vm::TYPE_REF}
exit !{$4.type == vm::TYPE_ARRAY} | !{$4} | {$4.type == vm::TYPE_REF} | {did assign($0, $2, new(vm::array_t,default_delete<vm::array_t>, $4.size))}
exit !{$4.type == vm::TYPE_ARRAY} | !{$4} | {$4.type == vm::TYPE_REF} | {did copy($0, $1, $2, idx($4.size), read_entry($1, $4.address, idx($4.size)), ($5 + 1))}
exit !{$4.type == vm::TYPE_ARRAY} | !{$4} | {$4.type == vm::TYPE_REF} | {did read_entry($1, $4.address, idx($4.size))}
exit !{$3} | !{$4.type == vm::TYPE_MAP} | !{$4} | {$4.type == vm::TYPE_ARRAY} | {$4.type == vm::TYPE_REF}
exit !{$4.type == vm::TYPE_MAP} | !{$4} | !{($4.flags & FLAG_STORED)} | {$4.type == vm::TYPE_ARRAY} | {$4.type == vm::TYPE_REF}
exit !{$4.type == vm::TYPE_MAP} | !{$4} | {$4.type == vm::TYPE_ARRAY} | {$4.type == vm::TYPE_REF} | {did assign($0, $2, new(vm::map_t,default_delete<vm::map_t>))}
exit !{$4.type == vm::TYPE_MAP} | !{$4} | {$4.type == vm::TYPE_ARRAY} | {$4.type == vm::TYPE_REF} | {did copy($0, $1, $2, lookup($0, read($1, elem(find_entries($1, $4.address)).first, false), false), elem(find_entries($1, $4.address)).second, ($5 + 1))}
exit !{$4.type == vm::TYPE_MAP} | !{$4} | {$4.type == vm::TYPE_ARRAY} | {$4.type == vm::TYPE_REF} | {did lookup($0, read($1, elem(find_entries($1, $4.address)).first, false), false)}
exit !{$4.type == vm::TYPE_MAP} | !{$4} | {$4.type == vm::TYPE_ARRAY} | {$4.type == vm::TYPE_REF} | {did read($1, elem(find_entries($1, $4.address)).first, false)}
at alloc($0) ;; {$4} ;; {$4.type == vm::TYPE_REF}
at copy($0, $1, alloc($0), $4.address, ($5 + 1)) ;; {$4} ;; {$4.type == vm::TYPE_REF}
at assign($0, $2, new(vm::array_t,default_delete<vm::array_t>, $4.size)) ;; {$4} ;; {$4.type == vm::TYPE_ARRAY} ;; !{$3}
at read_entry($1, $4.address, idx($4.size)) ;; {$4} ;; {$4.type == vm::TYPE_ARRAY} ;; !{$3}
at copy($0, $1, $2, idx($4.size), read_entry($1, $4.address, idx($4.size)), ($5 + 1)) ;; {$4} ;; {$4.type == vm::TYPE_ARRAY} ;; !{$3}
at assign($0, $2, new(vm::map_t,default_delete<vm::map_t>)) ;; {$4} ;; {$4.type == vm::TYPE_MAP} ;; !{$3} ;; !{($4.flags & FLAG_STORED)}
at read($1, elem(find_entries($1, $4.address)).first, false) ;; {$4} ;; {$4.type == vm::TYPE_MAP} ;; !{$3} ;; !{($4.flags & FLAG_STORED)}
at lookup($0, read($1, elem(find_entries($1, $4.address)).first, false), false) ;; {$4} ;; {$4.type == vm::TYPE_MAP} ;; !{$3} ;; !{($4.flags & FLAG_STORED)}
at copy($0, $1, $2, lookup($0, read($1, elem(find_entries($1, $4.address)).first, false), false), elem(find_entries($1, $4.address)).second, ($5 + 1)) ;; {$4} ;; {$4.type == vm::TYPE_MAP} ;; !{$3} ;; !{($4.flags & FLAG_STORED)}
at write_entry($0, $2, $3, ite((!{$4.type == vm::TYPE_ARRAY} && !{$4.type == vm::TYPE_MAP} && !{$4.type == vm::TYPE_REF} && {$4}), ite((!{$4.type == vm::TYPE_ARRAY} && !{$4.type == vm::TYPE_MAP} && !{$4.type == vm::TYPE_REF} && {$4}), $4, 0), ite((!{$4.type == vm::TYPE_REF} || !{$4}), 0, new(vm::ref_t,default_delete<vm::ref_t>, alloc($0))))) ;; {$4} ;; {$4.type == vm::TYPE_REF} | {$4} ;; !{$4.type == vm::TYPE_REF} | {$4} ;; !{$4.type == vm::TYPE_ARRAY} | {$4} ;; !{$4.type == vm::TYPE_ARRAY} | {$4.type == vm::TYPE_REF} ;; !{$4.type == vm::TYPE_MAP} | {$4} ;; !{$4.type == vm::TYPE_MAP} | {$4.type == vm::TYPE_REF} ;; {$3}
at write($0, $2, ite((!{$4.type == vm::TYPE_ARRAY} && !{$4.type == vm::TYPE_MAP} && !{$4.type == vm::TYPE_REF} && {$4}), ite((!{$4.type == vm::TYPE_ARRAY} && !{$4.type == vm::TYPE_MAP} && !{$4.type == vm::TYPE_REF} && {$4}), $4, 0), ite((!{$4.type == vm::TYPE_REF} || !{$4}), 0, new(vm::ref_t,default_delete<vm::ref_t>, alloc($0))))) ;; {$4} ;; {$4.type == vm::TYPE_REF} | {$4} ;; !{$4.type == vm::TYPE_REF} | {$4} ;; !{$4.type == vm::TYPE_ARRAY} | {$4} ;; !{$4.type == vm::TYPE_ARRAY} | {$4.type == vm::TYPE_REF} ;; !{$4.type == vm::TYPE_MAP} | {$4} ;; !{$4.type == vm::TYPE_MAP} | {$4.type == vm::TYPE_REF} ;; !{$3}
at check_gas($0)
fn mmx::vm::copy sig=(std::shared_ptr<mmx::vm::Engine>,~std::shared_ptr<mmx::vm::Engine>,~const~unsigned~long,~const~unsigned~long,~unsigned~long)
each read($1, $3, false)
each copy($0, $1, $2, 0, read($1, $3, false), $4)
never throw …
exit {did copy($0, $1, $2, 0, read($1, $3, false), $4)}
exit {did read($1, $3, false)}
at read($1, $3, false)
at copy($0, $1, $2, 0, read($1, $3, false), $4)
fn mmx::vm::copy sig=(std::shared_ptr<mmx::vm::Engine>,~std::shared_ptr<mmx::vm::Engine>,~const~unsigned~long,~const~unsigned~long)
each copy($0, $1, $2, $3, 0)
never throw …
exit {did copy($0, $1, $2, $3, 0)}
at copy($0, $1, $2, $3, 0)
fn mmx::vm::execute
each run($0)
each commit($0) ;; !{$1.is_const} ;; {$2}
each check_gas($0)
never throw …
exit {did begin($0, $1.entry_point)}
exit {did check_gas($0)}
exit {did run($0)}
exit !{$2} | {$1.is_const} | {did commit($0)}
at begin($0, $1.entry_point)
at run($0)
at commit($0) ;; !{$1.is_const} ;; {$2}
at check_gas($0)
fn mmx::vm::find_method
never throw …
exit !{has($0.methods, $1)} | {ret = at($0.methods, $1)}
exit {has($0.methods, $1)} | {ret = 0}
fn mmx::vm::load
at assign($0, fold(0, (ite({~ < MEM_EXTERN}, 1, 0) + ~), read_constants($1)), elem(read_constants($1))) ;; {fold(0, (ite({~ < MEM_EXTERN}, 1, 0) + ~), read_constants($1)) < MEM_EXTERN}
at deserialize($0.code, data($1.binary), size($1.binary)) ;; {fold(0, (ite({~ < MEM_EXTERN}, 1, 0) + ~), read_constants($1)) < MEM_EXTERN}
at init($0) ;; {fold(0, (ite({~ < MEM_EXTERN}, 1, 0) + ~), read_constants($1)) < MEM_EXTERN}
at check_gas($0) ;; {fold(0, (ite({~ < MEM_EXTERN}, 1, 0) + ~), read_constants($1)) < MEM_EXTERN}
each assign($0, fold(0, (ite({~ < MEM_EXTERN}, 1, 0) + ~), read_constants($1)), elem(read_constants($1))) ;; {fold(0, (ite({~ < MEM_EXTERN}, 1, 0) + ~), read_constants($1)) < MEM_EXTERN}
each deserialize($0.code, data($1.binary), size($1.binary)) ;; {fold(0, (ite({~ < MEM_EXTERN}, 1, 0) + ~), read_constants($1)) < MEM_EXTERN}
each init($0) ;; {fold(0, (ite({~ < MEM_EXTERN}, 1, 0) + ~), read_constants($1)) < MEM_EXTERN}
each check_gas($0) ;; {fold(0, (ite({~ < MEM_EXTERN}, 1, 0) + ~), read_constants($1)) < MEM_EXTERN}
never break(read_constants($1))
raise !{fold(0, (ite({~ < MEM_EXTERN}, 1, 0) + ~), read_constants($1)) < MEM_EXTERN}
value fold(0, (ite({~ < MEM_EXTERN}, 1, 0) + ~), read_constants($1))
exit {did assign($0, fold(0, (ite({~ < MEM_EXTERN}, 1, 0) + ~), read_constants($1)), elem(read_constants($1)))}
exit {did check_gas($0)}
exit {did deserialize($0.code, data($1.binary), size($1.binary))}
exit {did init($0)}
exit {fold(0, (ite({~ < MEM_EXTERN}, 1, 0) + ~), read_constants($1)) < MEM_EXTERN}
at assign($0, fold(0, (ite({~ < MEM_EXTERN}, 1, 0) + ~), read_constants($1)), elem(read_constants($1)))
at deserialize($0.code, data($1.binary), size($1.binary))
at init($0)
at check_gas($0)
fn mmx::vm::read
each read($0, $1, false)
never throw …
exit {did read($0, $1, false)}
exit {ret = convert($0, read($0, $1, false), 0)}
at read($0, $1, false)
fn mmx::vm::read_constants sig=(const~unsigned~char~*,~const~unsigned~long)
never break(loop)
each deserialize(0, ($0 + fold(0, (deserialize(0, ($0 + ~), ($1 + -~), false, false) + ~))), ($1 + -fold(0, (deserialize(0, ($0 + ~), ($1 + -~), false, false) + ~))), false, false) ;; {fold(0, (deserialize(0, ($0 + ~), ($1 + -~), false, false) + ~)) < $1}
each push_back(%vector<unique_ptr<vm::var_t,default_delete<vm::var_t>>>, out(deserialize‥, ($0 + fold(0, (deserialize(0, ($0 + ~), ($1 + -~), false, false) + ~))), ($1 + -fold(0, (deserialize(0, ($0 + ~), ($1 + -~), false, false) + ~))), false, false)) ;; {fold(0, (deserialize(0, ($0 + ~), ($1 + -~), false, false) + ~)) < $1}
never throw …
value fold(0, (deserialize(0, ($0 + ~), ($1 + -~), false, false) + ~))
exit !{fold(0, (deserialize(0, ($0 + ~), ($1 + -~), false, false) + ~)) < $1}
exit {did deserialize(0, ($0 + fold(0, (deserialize(0, ($0 + ~), ($1 + -~), false, false) + ~))), ($1 + -fold(0, (deserialize(0, ($0 + ~), ($1 + -~), false, false) + ~))), false, false)}
exit {did push_back(%vector<unique_ptr<vm::var_t,default_delete<vm::var_t>>>, out(deserialize‥, ($0 + fold(0, (deserialize(0, ($0 + ~), ($1 + -~), false, false) + ~))), ($1 + -fold(0, (deserialize(0, ($0 + ~), ($1 + -~), false, false) + ~))), false, false))}
exit {ret = %vector<unique_ptr<vm::var_t,default_delete<vm::var_t>>>}
at deserialize(0, ($0 + fold(0, (deserialize(0, ($0 + ~), ($1 + -~), false, false) + ~))), ($1 + -fold(0, (deserialize(0, ($0 + ~), ($1 + -~), false, false) + ~))), false, false) ;; {fold(0, (deserialize(0, ($0 + ~), ($1 + -~), false, false) + ~)) < $1}
at push_back(%vector<unique_ptr<vm::var_t,default_delete<vm::var_t>>>, out(deserialize‥, ($0 + fold(0, (deserialize(0, ($0 + ~), ($1 + -~), false, false) + ~))), ($1 + -fold(0, (deserialize(0, ($0 + ~), ($1 + -~), false, false) + ~))), false, false)) ;; {fold(0, (deserialize(0, ($0 + ~), ($1 + -~), false, false) + ~)) < $1}
fn mmx::vm::read_constants sig=(std::shared_ptr<const~mmx::contract::Binary>)
never throw …
exit {ret = read_constants(data($0.constant), size($0.constant))}
fn mmx::vm::set_args
each assign($0, (MEM_STACK + idx($1) + 1), elem($1)) ;; {(MEM_STACK + idx($1) + 1) < MEM_STATIC}
never break($1)
raise !{(MEM_STACK + idx($1) + 1) < MEM_STATIC}
exit {(MEM_STACK + idx($1) + 1) < MEM_STATIC}
exit {did assign($0, (MEM_STACK + idx($1) + 1), elem($1))}
at assign($0, (MEM_STACK + idx($1) + 1), elem($1))
fn mmx::vm::set_deposit
each assign($0, (MEM_EXTERN + vm::EXTERN_DEPOSIT), new(vm::array_t,default_delete<vm::array_t>))
each push_back($0, (MEM_EXTERN + vm::EXTERN_DEPOSIT), ctor(vm::varptr_t, to_binary($1)))
each push_back($0, (MEM_EXTERN + vm::EXTERN_DEPOSIT), ctor(vm::uint_t, $2))
never throw …
at ctor:vm::uint_t($2)
exit {did assign($0, (MEM_EXTERN + vm::EXTERN_DEPOSIT), new(vm::array_t,default_delete<vm::array_t>))}
exit {did push_back($0, (MEM_EXTERN + vm::EXTERN_DEPOSIT), ctor(vm::uint_t, $2))}
exit {did push_back($0, (MEM_EXTERN + vm::EXTERN_DEPOSIT), ctor(vm::varptr_t, to_binary($1)))}
at assign($0, (MEM_EXTERN + vm::EXTERN_DEPOSIT), new(vm::array_t,default_delete<vm::array_t>))
at push_back($0, (MEM_EXTERN + vm::EXTERN_DEPOSIT), ctor(vm::varptr_t, to_binary($1)))
at push_back($0, (MEM_EXTERN + vm::EXTERN_DEPOSIT), ctor(vm::uint_t, $2))
