tus src/vm/Engine.cpp
fn mmx::vm::Engine::addref
each read($0, true)
each addref(read($0, true)) ;; {read($0, true)}
never throw …
exit {did read($0, true)}
exit !{read($0, true)} | {did addref(read($0, true))}
at read($0, true)
at addref(read($0, true)) ;; {read($0, true)}
fn mmx::vm::Engine::unref
each read($0, true)
each unref(read($0, true)) ;; {read($0, true)}
each erase($0) ;; {read($0, true)} ;; {unref(read($0, true))}
never throw …
exit {did read($0, true)}
exit !{read($0, true)} | {did unref(read($0, true))}
exit !{read($0, true)} | !{unref(read($0, true))} | {did erase($0)}
at read($0, true)
at unref(read($0, true)) ;; {read($0, true)}
at erase($0) ;; {read($0, true)} ;; {unref(read($0, true))}
fn mmx::vm::Engine::pop_back
each read_fail($1, vm::TYPE_ARRAY) ;; !{$0 == $1}
each read_entry_fail($1, (read_fail($1, vm::TYPE_ARRAY).size + -1)) ;; !{$0 == $1} ;; {read_fail($1, vm::TYPE_ARRAY).size}
each write($0, read_entry_fail($1, (read_fail($1, vm::TYPE_ARRAY).size + -1))) ;; !{$0 == $1} ;; {read_fail($1, vm::TYPE_ARRAY).size}
each erase_entry($1, (read_fail($1, vm::TYPE_ARRAY).size + -1)) ;; !{$0 == $1} ;; {read_fail($1, vm::TYPE_ARRAY).size}
each read_fail($1, vm::TYPE_ARRAY).size = (read_fail($1, vm::TYPE_ARRAY).size + -1) ;; !{$0 == $1} ;; {read_fail($1, vm::TYPE_ARRAY).size}
each read_fail($1, vm::TYPE_ARRAY).flags = u8((FLAG_DIRTY | read_fail($1, vm::TYPE_ARRAY).flags)) ;; !{$0 == $1} ;; {read_fail($1, vm::TYPE_ARRAY).size}
raise {$0 == $1}
raise !{$0 == $1} ;; !{read_fail($1, vm::TYPE_ARRAY).size}
exit !{$0 == $1}
exit {did erase_entry($1, (read_fail($1, vm::TYPE_ARRAY).size + -1))}
exit {did read_entry_fail($1, (read_fail($1, vm::TYPE_ARRAY).size + -1))}
exit {did read_fail($1, vm::TYPE_ARRAY).flags = u8((FLAG_DIRTY | read_fail($1, vm::TYPE_ARRAY).flags))}
exit {did read_fail($1, vm::TYPE_ARRAY).size = (read_fail($1, vm::TYPE_ARRAY).size + -1)}
exit {did read_fail($1, vm::TYPE_ARRAY)}
exit {did write($0, read_entry_fail($1, (read_fail($1, vm::TYPE_ARRAY).size + -1)))}
exit {read_fail($1, vm::TYPE_ARRAY).size}
at read_fail($1, vm::TYPE_ARRAY)
at read_entry_fail($1, (read_fail($1, vm::TYPE_ARRAY).size + -1))
at write($0, read_entry_fail($1, (read_fail($1, vm::TYPE_ARRAY).size + -1)))
at erase_entry($1, (read_fail($1, vm::TYPE_ARRAY).size + -1))
at read_fail($1, vm::TYPE_ARRAY).size = (read_fail($1, vm::TYPE_ARRAY).size + -1)
at read_fail($1, vm::TYPE_ARRAY).flags = u8((FLAG_DIRTY | read_fail($1, vm::TYPE_ARRAY).flags))
fn mmx::vm::Engine::erase_entry
each read_fail($0) ;; !{has(@entries, pair($0, $1))} ;; !{$0 < MEM_STATIC}
each insert(@entries, pair($0, $1), read(@storage, @contract, $0, $1)) ;; !{has(@entries, pair($0, $1))} ;; !{$0 < MEM_STATIC} ;; {(FLAG_STORED & read_fail($0).flags)} ;; {read(@storage, @contract, $0, $1)}
each erase(ite((!{$0 < MEM_STATIC} && !{has(@entries, pair($0, $1))} && {(FLAG_STORED & read_fail($0).flags)} && {read(@storage, @contract, $0, $1)}), insert(@entries, pair($0, $1)).first.second, at(@entries, pair($0, $1)))) ;; !{(FLAG_STORED & read_fail($0).flags)} | !{end(@entries) == insert(@entries, pair($0, $1)).first} | !{read(@storage, @contract, $0, $1)} | {$0 < MEM_STATIC} | {has(@entries, pair($0, $1))} ;; !{$0 < MEM_STATIC} | {has(@entries, pair($0, $1))} ;; {(FLAG_STORED & read_fail($0).flags)} | {has(@entries, pair($0, $1))} ;; {has(@entries, pair($0, $1))} | {read(@storage, @contract, $0, $1)}
never throw …
exit {$0 < MEM_STATIC} | {did read_fail($0)} | {has(@entries, pair($0, $1))}
exit !{(FLAG_STORED & read_fail($0).flags)} | !{read(@storage, @contract, $0, $1)} | {$0 < MEM_STATIC} | {did insert(@entries, pair($0, $1), read(@storage, @contract, $0, $1))} | {has(@entries, pair($0, $1))}
exit !{(FLAG_STORED & read_fail($0).flags)} | !{read(@storage, @contract, $0, $1)} | {$0 < MEM_STATIC} | {has(@entries, pair($0, $1))} | {inserted(@entries, pair($0, $1))}
at read_fail($0) ;; !{has(@entries, pair($0, $1))} ;; !{$0 < MEM_STATIC}
at insert(@entries, pair($0, $1), read(@storage, @contract, $0, $1)) ;; !{has(@entries, pair($0, $1))} ;; !{$0 < MEM_STATIC} ;; {(FLAG_STORED & read_fail($0).flags)} ;; {read(@storage, @contract, $0, $1)}
at erase(ite((!{$0 < MEM_STATIC} && !{has(@entries, pair($0, $1))} && {(FLAG_STORED & read_fail($0).flags)} && {read(@storage, @contract, $0, $1)}), insert(@entries, pair($0, $1)).first.second, at(@entries, pair($0, $1)))) ;; !{(FLAG_STORED & read_fail($0).flags)} | !{end(@entries) == insert(@entries, pair($0, $1)).first} | !{read(@storage, @contract, $0, $1)} | {$0 < MEM_STATIC} | {has(@entries, pair($0, $1))} ;; !{$0 < MEM_STATIC} | {has(@entries, pair($0, $1))} ;; {(FLAG_STORED & read_fail($0).flags)} | {has(@entries, pair($0, $1))} ;; {has(@entries, pair($0, $1))} | {read(@storage, @contract, $0, $1)}
fn mmx::vm::Engine::erase_key
each lookup($1, true)
each erase_entry($0, lookup($1, true)) ;; {lookup($1, true)}
never throw …
exit {did lookup($1, true)}
exit !{lookup($1, true)} | {did erase_entry($0, lookup($1, true))}
at lookup($1, true)
at erase_entry($0, lookup($1, true)) ;; {lookup($1, true)}
fn mmx::vm::Engine::erase_entries
never break(loop)
each erase(fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).second) ;; !{end(@entries) == fold(lower_bound(@entries, pair($0, 0)), (~ + 1))} ;; {$0 == fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).first.first}
each check_gas() ;; !{end(@entries) == fold(lower_bound(@entries, pair($0, 0)), (~ + 1))} ;; {$0 == fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).first.first}
never throw …
value fold(lower_bound(@entries, pair($0, 0)), (~ + 1))
exit {did erase(fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).second)}
exit !{$0 == fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).first.first} | {end(@entries) == fold(lower_bound(@entries, pair($0, 0)), (~ + 1))}
at erase(fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).second) ;; !{end(@entries) == fold(lower_bound(@entries, pair($0, 0)), (~ + 1))} ;; {$0 == fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).first.first}
at check_gas() ;; !{end(@entries) == fold(lower_bound(@entries, pair($0, 0)), (~ + 1))} ;; {$0 == fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).first.first}
fn mmx::vm::Engine::clear
each unref($0.address) ;; {$0.type == vm::TYPE_REF}
each erase_entries($0.address) ;; {$0.type == vm::TYPE_ARRAY} ;; !{($0.flags & FLAG_STORED)}
each erase_entries($0.address) ;; {$0.type == vm::TYPE_MAP} ;; !{($0.flags & FLAG_STORED)}
raise {$0.type == vm::TYPE_ARRAY} ;; {($0.flags & FLAG_STORED)}
raise {$0.type == vm::TYPE_MAP} ;; {($0.flags & FLAG_STORED)}
exit !{$0.type == vm::TYPE_REF} | {did unref($0.address)}
exit !{$0.type == vm::TYPE_ARRAY} | !{($0.flags & FLAG_STORED)} | {$0.type == vm::TYPE_REF}
exit !{$0.type == vm::TYPE_ARRAY} | {$0.type == vm::TYPE_REF} | {did erase_entries($0.address)}
exit !{$0.type == vm::TYPE_MAP} | !{($0.flags & FLAG_STORED)} | {$0.type == vm::TYPE_ARRAY} | {$0.type == vm::TYPE_REF}
exit !{$0.type == vm::TYPE_MAP} | {$0.type == vm::TYPE_ARRAY} | {$0.type == vm::TYPE_REF} | {did erase_entries($0.address)}
at unref($0.address) ;; {$0.type == vm::TYPE_REF}
at erase_entries($0.address) ;; !{($0.flags & FLAG_STORED)}
fn mmx::vm::Engine::read_entry
each at(@entries, pair($0, $1)) = read(@storage, @contract, $0, $1) ;; !{has(@entries, pair($0, $1))} ;; !{$0 < MEM_STATIC} ;; {read(@storage, @contract, $0, $1)}
never throw …
exit !{$0 < MEM_STATIC} | {has(@entries, pair($0, $1))} | {ret = 0}
exit !{(FLAG_DELETED & at(@entries, pair($0, $1)).flags)} | !{at(@entries, pair($0, $1))} | !{has(@entries, pair($0, $1))} | {ret = 0}
exit !{has(@entries, pair($0, $1))} | {(FLAG_DELETED & at(@entries, pair($0, $1)).flags)} | {ret = at(@entries, pair($0, $1))}
exit !{has(@entries, pair($0, $1))} | {at(@entries, pair($0, $1))} | {ret = at(@entries, pair($0, $1))}
exit !{read(@storage, @contract, $0, $1)} | {$0 < MEM_STATIC} | {has(@entries, pair($0, $1))} | {ret = read(@storage, @contract, $0, $1)}
exit {has(@entries, pair($0, $1))} | {read(@storage, @contract, $0, $1)} | {ret = 0}
exit !{read(@storage, @contract, $0, $1)} | {$0 < MEM_STATIC} | {did at(@entries, pair($0, $1)) = read(@storage, @contract, $0, $1)} | {has(@entries, pair($0, $1))}
at at(@entries, pair($0, $1)) = read(@storage, @contract, $0, $1) ;; !{has(@entries, pair($0, $1))} ;; !{$0 < MEM_STATIC} ;; {read(@storage, @contract, $0, $1)}
fn mmx::vm::Engine::read_entry_fail
each read_entry($0, $1)
raise !{read_entry($0, $1)}
exit {did read_entry($0, $1)}
exit {read_entry($0, $1)}
exit {ret = read_entry($0, $1)}
at read_entry($0, $1)
fn mmx::vm::Engine::alloc
each read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)
each @new_heap_base = MEM_HEAP ;; !{read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}
each assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START))) ;; !{read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}
each pin(assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))) ;; !{read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}
each ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).flags = u8((FLAG_DIRTY | ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).flags)) ;; !{18446744073709551614 < ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).value}
each @first_alloc = false ;; !{18446744073709551614 < ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).value} ;; {@first_alloc}
each @new_heap_base = ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).value ;; !{18446744073709551614 < ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).value} ;; {@first_alloc}
each ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).value = (ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).value + 1) ;; !{18446744073709551614 < ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).value}
raise {18446744073709551614 < ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).value}
exit !{18446744073709551614 < ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).value}
exit {did ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).flags = u8((FLAG_DIRTY | ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).flags))}
exit {did ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).value = (ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).value + 1)}
exit {did read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}
exit {ret = ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).value}
exit !{@first_alloc} | {did @first_alloc = false}
exit !{@first_alloc} | {did @new_heap_base = ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).value}
exit {did @new_heap_base = MEM_HEAP} | {read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}
exit {did assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))} | {read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}
exit {did pin(assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START))))} | {read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}
at read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)
at @new_heap_base = MEM_HEAP ;; !{read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}
at assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START))) ;; !{read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}
at pin(assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))) ;; !{read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}
at ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).flags = u8((FLAG_DIRTY | ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).flags))
at @first_alloc = false ;; {@first_alloc}
at @new_heap_base = ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).value ;; {@first_alloc}
at ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).value = (ite({read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT)}, read(MEM_HEAP_NEXT_ALLOC, vm::TYPE_UINT), assign(MEM_HEAP_NEXT_ALLOC, new(vm::uint_t,default_delete<vm::uint_t>, (MEM_HEAP + vm::GLOBAL_DYNAMIC_START)))).value + 1)
fn mmx::vm::Engine::init
never break(loop)
never num_bytes(fold(lower_bound(@memory, 1), (~ + 1)).second) ;; !{@have_init} ;; !{fold(lower_bound(@memory, 1), (~ + 1)) == lower_bound(@memory, MEM_EXTERN)}
at insert(@key_map, fold(lower_bound(@memory, 1), (~ + 1)).second, fold(lower_bound(@memory, 1), (~ + 1)).first) ;; !{@have_init} ;; !{fold(lower_bound(@memory, 1), (~ + 1)) == lower_bound(@memory, MEM_EXTERN)} ;; !{MAX_KEY_BYTES < num_bytes(fold(lower_bound(@memory, 1), (~ + 1)).second)}
each insert(@key_map, fold(lower_bound(@memory, 1), (~ + 1)).second, fold(lower_bound(@memory, 1), (~ + 1)).first) ;; !{@have_init} ;; !{fold(lower_bound(@memory, 1), (~ + 1)) == lower_bound(@memory, MEM_EXTERN)} ;; !{MAX_KEY_BYTES < num_bytes(fold(lower_bound(@memory, 1), (~ + 1)).second)}
each @have_init = true ;; !{@have_init}
raise {@have_init}
value fold(lower_bound(@memory, 1), (~ + 1))
exit !{@have_init}
exit {did @have_init = true}
exit {fold(lower_bound(@memory, 1), (~ + 1)) == lower_bound(@memory, MEM_EXTERN)}
exit {MAX_KEY_BYTES < num_bytes(fold(lower_bound(@memory, 1), (~ + 1)).second)} | {did insert(@key_map, fold(lower_bound(@memory, 1), (~ + 1)).second, fold(lower_bound(@memory, 1), (~ + 1)).first)}
at insert(@key_map, fold(lower_bound(@memory, 1), (~ + 1)).second, fold(lower_bound(@memory, 1), (~ + 1)).first) ;; !{fold(lower_bound(@memory, 1), (~ + 1)) == lower_bound(@memory, MEM_EXTERN)} ;; !{MAX_KEY_BYTES < num_bytes(fold(lower_bound(@memory, 1), (~ + 1)).second)}
at @have_init = true
fn mmx::vm::Engine::check_gas
each @error_code = error_code_e::TXFEE_OVERRUN ;; {@gas_limit < @gas_used}
raise {@gas_limit < @gas_used}
exit !{@gas_limit < @gas_used}
at @error_code = error_code_e::TXFEE_OVERRUN ;; {@gas_limit < @gas_used}
fn mmx::vm::Engine::copy
each read_fail($1) ;; !{$0 == $1}
each write($0, read_fail($1)) ;; !{$0 == $1}
never throw …
exit {$0 == $1} | {did read_fail($1)}
exit {$0 == $1} | {did write($0, read_fail($1))}
at read_fail($1) ;; !{$0 == $1}
at write($0, read_fail($1)) ;; !{$0 == $1}
fn mmx::vm::Engine::clone
each alloc()
each read_fail($1)
each write(alloc(), read_fail($1))
each write($0, ctor(vm::ref_t, alloc()))
never throw …
exit {did alloc()}
exit {did read_fail($1)}
exit {did write($0, ctor(vm::ref_t, alloc()))}
exit {did write(alloc(), read_fail($1))}
at alloc()
at read_fail($1)
at write(alloc(), read_fail($1))
at write($0, ctor(vm::ref_t, alloc()))
fn mmx::vm::Engine::clear_stack
never break(loop)
each clear(fold(lower_bound(@memory, ($0 + MEM_STACK)), erase(@memory, ~)).second) ;; !{fold(lower_bound(@memory, ($0 + MEM_STACK)), erase(@memory, ~)) == lower_bound(@memory, MEM_STATIC)}
each erase(@memory, fold(lower_bound(@memory, ($0 + MEM_STACK)), erase(@memory, ~))) ;; !{fold(lower_bound(@memory, ($0 + MEM_STACK)), erase(@memory, ~)) == lower_bound(@memory, MEM_STATIC)}
each check_gas() ;; !{fold(lower_bound(@memory, ($0 + MEM_STACK)), erase(@memory, ~)) == lower_bound(@memory, MEM_STATIC)}
never throw …
value fold(lower_bound(@memory, ($0 + MEM_STACK)), erase(@memory, ~))
exit {did clear(fold(lower_bound(@memory, ($0 + MEM_STACK)), erase(@memory, ~)).second)}
exit {did erase(@memory, fold(lower_bound(@memory, ($0 + MEM_STACK)), erase(@memory, ~)))}
exit {fold(lower_bound(@memory, ($0 + MEM_STACK)), erase(@memory, ~)) == lower_bound(@memory, MEM_STATIC)}
at clear(fold(lower_bound(@memory, ($0 + MEM_STACK)), erase(@memory, ~)).second) ;; !{fold(lower_bound(@memory, ($0 + MEM_STACK)), erase(@memory, ~)) == lower_bound(@memory, MEM_STATIC)}
at erase(@memory, fold(lower_bound(@memory, ($0 + MEM_STACK)), erase(@memory, ~))) ;; !{fold(lower_bound(@memory, ($0 + MEM_STACK)), erase(@memory, ~)) == lower_bound(@memory, MEM_STATIC)}
at check_gas() ;; !{fold(lower_bound(@memory, ($0 + MEM_STACK)), erase(@memory, ~)) == lower_bound(@memory, MEM_STATIC)}
fn mmx::vm::Engine::commit
never break(loop)
each clear_stack(0)
each write(@storage, @contract, fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).first, fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second) ;; !{end(@memory) == fold(lower_bound(@memory, MEM_STATIC), (~ + 1))} ;; {fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second} ;; {(FLAG_DIRTY & fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second.flags)}
each fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second.flags = u8((fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second.flags & ~(FLAG_DIRTY))) ;; !{end(@memory) == fold(lower_bound(@memory, MEM_STATIC), (~ + 1))} ;; {fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second} ;; {(FLAG_DIRTY & fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second.flags)}
each write(@storage, @contract, fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).first.first, fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).first.second, fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second) ;; !{end(@entries) == fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1))} ;; {fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second} ;; {(FLAG_DIRTY & fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second.flags)}
each fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second.flags = u8((fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second.flags & ~(FLAG_DIRTY))) ;; !{end(@entries) == fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1))} ;; {fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second} ;; {(FLAG_DIRTY & fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second.flags)}
each check_gas()
never throw …
value fold(lower_bound(@memory, MEM_STATIC), (~ + 1))
value fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1))
exit {did check_gas()}
exit {did clear_stack(0)}
exit {end(@entries) == fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1))}
exit {end(@memory) == fold(lower_bound(@memory, MEM_STATIC), (~ + 1))}
exit !{(FLAG_DIRTY & fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second.flags)} | !{fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second} | {did fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second.flags = u8((fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second.flags & ~(FLAG_DIRTY)))}
exit !{(FLAG_DIRTY & fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second.flags)} | !{fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second} | {did write(@storage, @contract, fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).first.first, fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).first.second, fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second)}
exit !{(FLAG_DIRTY & fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second.flags)} | !{fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second} | {did fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second.flags = u8((fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second.flags & ~(FLAG_DIRTY)))}
exit !{(FLAG_DIRTY & fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second.flags)} | !{fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second} | {did write(@storage, @contract, fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).first, fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second)}
at clear_stack(0)
at write(@storage, @contract, fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).first, fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second) ;; !{end(@memory) == fold(lower_bound(@memory, MEM_STATIC), (~ + 1))} ;; {fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second} ;; {(FLAG_DIRTY & fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second.flags)}
at fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second.flags = u8((fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second.flags & ~(FLAG_DIRTY))) ;; !{end(@memory) == fold(lower_bound(@memory, MEM_STATIC), (~ + 1))} ;; {fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second} ;; {(FLAG_DIRTY & fold(lower_bound(@memory, MEM_STATIC), (~ + 1)).second.flags)}
at write(@storage, @contract, fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).first.first, fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).first.second, fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second) ;; !{end(@entries) == fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1))} ;; {fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second} ;; {(FLAG_DIRTY & fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second.flags)}
at fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second.flags = u8((fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second.flags & ~(FLAG_DIRTY))) ;; !{end(@entries) == fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1))} ;; {fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second} ;; {(FLAG_DIRTY & fold(lower_bound(@entries, pair(MEM_STATIC, 0)), (~ + 1)).second.flags)}
at check_gas()
fn mmx::vm::Engine::find_entries
never break(loop)
each at(%map<unsignedlong,vm::var_t*>, fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).first.second) = fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).second ;; !{end(@entries) == fold(lower_bound(@entries, pair($0, 0)), (~ + 1))} ;; {$0 == fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).first.first} ;; {fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).second} ;; !{(FLAG_DELETED & fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).second.flags)}
never throw …
value fold(lower_bound(@entries, pair($0, 0)), (~ + 1))
exit {ret = %map<unsignedlong,vm::var_t*>}
exit !{$0 == fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).first.first} | {end(@entries) == fold(lower_bound(@entries, pair($0, 0)), (~ + 1))}
exit !{fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).second} | {(FLAG_DELETED & fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).second.flags)} | {did at(%map<unsignedlong,vm::var_t*>, fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).first.second) = fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).second}
at at(%map<unsignedlong,vm::var_t*>, fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).first.second) = fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).second ;; !{end(@entries) == fold(lower_bound(@entries, pair($0, 0)), (~ + 1))} ;; {$0 == fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).first.first} ;; {fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).second} ;; !{(FLAG_DELETED & fold(lower_bound(@entries, pair($0, 0)), (~ + 1)).second.flags)}
fn mmx::vm::Engine::assign sig=(const~unsigned~long
each $1.address = $0 ;; !{$0 < MEM_EXTERN} | !{@have_init} ;; {$1.type == vm::TYPE_ARRAY}
each $1.address = $0 ;; !{$0 < MEM_EXTERN} | !{@have_init} ;; {$1.type == vm::TYPE_MAP}
each at(@memory, $0) = read(@storage, @contract, $0) ;; !{$0 < MEM_EXTERN} | !{@have_init} ;; !{at(@memory, $0)} ;; !{$0 < MEM_STATIC} ;; {$0 < @new_heap_base}
each assign(ite((!{$0 < @new_heap_base} || {$0 < MEM_STATIC} || {at(@memory, $0)}), at(@memory, $0), read(@storage, @contract, $0)), $1) ;; !{$0 < MEM_EXTERN} | !{@have_init}
raise {@have_init} ;; {$0 < MEM_EXTERN}
exit {did assign(ite((!{$0 < @new_heap_base} || {$0 < MEM_STATIC} || {at(@memory, $0)}), at(@memory, $0), read(@storage, @contract, $0)), $1)}
exit {ret = assign(ite((!{$0 < @new_heap_base} || {$0 < MEM_STATIC} || {at(@memory, $0)}), at(@memory, $0), read(@storage, @contract, $0)), $1)}
exit !{$0 < MEM_EXTERN} | !{@have_init}
exit !{$1.type == vm::TYPE_ARRAY} | {did $1.address = $0}
exit !{$1.type == vm::TYPE_MAP} | {$1.type == vm::TYPE_ARRAY} | {did $1.address = $0}
exit !{$0 < @new_heap_base} | {$0 < MEM_STATIC} | {at(@memory, $0)} | {did at(@memory, $0) = read(@storage, @contract, $0)}
at $1.address = $0
at at(@memory, $0) = read(@storage, @contract, $0) ;; !{at(@memory, $0)} ;; !{$0 < MEM_STATIC} ;; {$0 < @new_heap_base}
at assign(ite((!{$0 < @new_heap_base} || {$0 < MEM_STATIC} || {at(@memory, $0)}), at(@memory, $0), read(@storage, @contract, $0)), $1)
fn mmx::vm::Engine::assign sig=(std::unique
at $1.flags = u8(($1.flags & ~(FLAG_DELETED))) ;; !{MAX_VALUE_BYTES < num_bytes($1)}
each $1.flags = $0.flags ;; {$0} ;; !{($0.flags & FLAG_CONST)}
each $1.ref_count = $0.ref_count ;; {$0} ;; !{($0.flags & FLAG_CONST)}
each clear($0) ;; {$0} ;; !{($0.flags & FLAG_CONST)}
each @gas_used = (((WRITE_32_BYTE_COST * num_bytes($1)) / 32) + @gas_used + WRITE_COST) ;; !{MAX_VALUE_BYTES < num_bytes($1)}
each $1.flags = u8(($1.flags | FLAG_DIRTY)) ;; !{MAX_VALUE_BYTES < num_bytes($1)}
each $1.flags = u8(($1.flags & ~(FLAG_DELETED))) ;; !{MAX_VALUE_BYTES < num_bytes($1)}
each addref($1.address) ;; !{MAX_VALUE_BYTES < num_bytes($1)} ;; {$1.type == vm::TYPE_REF}
raise {$0} ;; {($0.flags & FLAG_CONST)}
raise {MAX_VALUE_BYTES < num_bytes($1)}
exit !{MAX_VALUE_BYTES < num_bytes($1)}
exit {did $1.flags = u8(($1.flags & ~(FLAG_DELETED)))}
exit {did $1.flags = u8(($1.flags | FLAG_DIRTY))}
exit {did @gas_used = (((WRITE_32_BYTE_COST * num_bytes($1)) / 32) + @gas_used + WRITE_COST)}
exit {out $0 = $1}
exit {ret = $1}
exit !{$0} | !{($0.flags & FLAG_CONST)}
exit !{$0} | {did $1.flags = $0.flags}
exit !{$0} | {did $1.ref_count = $0.ref_count}
exit !{$0} | {did clear($0)}
exit !{$1.type == vm::TYPE_REF} | {did addref($1.address)}
at $1.flags = $0.flags ;; {$0} ;; !{($0.flags & FLAG_CONST)}
at $1.ref_count = $0.ref_count ;; {$0} ;; !{($0.flags & FLAG_CONST)}
at clear($0) ;; {$0} ;; !{($0.flags & FLAG_CONST)}
at @gas_used = (((WRITE_32_BYTE_COST * num_bytes($1)) / 32) + @gas_used + WRITE_COST)
at $1.flags = u8(($1.flags | FLAG_DIRTY))
at $1.flags = u8(($1.flags & ~(FLAG_DELETED)))
at addref($1.address) ;; {$1.type == vm::TYPE_REF}
fn mmx::vm::Engine::lookup sig=mmx::vm::var_t~*
each lookup($0, $1) ;; {$0}
never throw …
exit !{$0} | {ret = lookup($0, $1)}
exit {$0} | {ret = 0}
exit !{$0} | {did lookup($0, $1)}
at lookup($0, $1) ;; {$0}
fn mmx::vm::Engine::lookup sig=varptr_t
each lookup(get($0), $1)
never throw …
exit {did lookup(get($0), $1)}
exit {ret = lookup(get($0), $1)}
at lookup(get($0), $1)
fn mmx::vm::Engine::lookup sig=mmx::vm::var_t~&
each read_fail(lookup(@storage, @contract, $0)) ;; !{$0.type == vm::TYPE_NIL} ;; !{MAX_KEY_BYTES < num_bytes($0)} ;; !{has(@key_map, $0)} ;; {lookup(@storage, @contract, $0)}
each at(@key_map, read_fail(lookup(@storage, @contract, $0))) = lookup(@storage, @contract, $0) ;; !{$0.type == vm::TYPE_NIL} ;; !{MAX_KEY_BYTES < num_bytes($0)} ;; !{has(@key_map, $0)} ;; {lookup(@storage, @contract, $0)} ;; {(FLAG_CONST & read_fail(lookup(@storage, @contract, $0)).flags)} ;; {(FLAG_KEY & read_fail(lookup(@storage, @contract, $0)).flags)}
each alloc() ;; !{$0.type == vm::TYPE_NIL} ;; !{MAX_KEY_BYTES < num_bytes($0)} ;; !{has(@key_map, $0)} ;; !{lookup(@storage, @contract, $0)} ;; !{$1}
each write(alloc(), $0) ;; !{$0.type == vm::TYPE_NIL} ;; !{MAX_KEY_BYTES < num_bytes($0)} ;; !{has(@key_map, $0)} ;; !{lookup(@storage, @contract, $0)} ;; !{$1}
each write(alloc(), $0).flags = u8((FLAG_CONST | FLAG_KEY | write(alloc(), $0).flags)) ;; !{$0.type == vm::TYPE_NIL} ;; !{MAX_KEY_BYTES < num_bytes($0)} ;; !{has(@key_map, $0)} ;; !{lookup(@storage, @contract, $0)} ;; !{$1}
each addref(write(alloc(), $0)) ;; !{$0.type == vm::TYPE_NIL} ;; !{MAX_KEY_BYTES < num_bytes($0)} ;; !{has(@key_map, $0)} ;; !{lookup(@storage, @contract, $0)} ;; !{$1}
each at(@key_map, write(alloc(), $0)) = alloc() ;; !{$0.type == vm::TYPE_NIL} ;; !{MAX_KEY_BYTES < num_bytes($0)} ;; !{has(@key_map, $0)} ;; !{lookup(@storage, @contract, $0)} ;; !{$1}
raise {$0.type == vm::TYPE_NIL}
raise !{$0.type == vm::TYPE_NIL} ;; {MAX_KEY_BYTES < num_bytes($0)}
raise !{$0.type == vm::TYPE_NIL} ;; !{MAX_KEY_BYTES < num_bytes($0)} ;; !{has(@key_map, $0)} ;; {lookup(@storage, @contract, $0)} ;; !{(FLAG_CONST & read_fail(lookup(@storage, @contract, $0)).flags)} | !{(FLAG_KEY & read_fail(lookup(@storage, @contract, $0)).flags)}
exit !{$0.type == vm::TYPE_NIL}
exit !{MAX_KEY_BYTES < num_bytes($0)}
exit !{$1} | {has(@key_map, $0)} | {lookup(@storage, @contract, $0)} | {ret = 0}
exit !{has(@key_map, $0)} | {ret = at(@key_map, $0)}
exit !{lookup(@storage, @contract, $0)} | {has(@key_map, $0)} | {ret = lookup(@storage, @contract, $0)}
exit {$1} | {has(@key_map, $0)} | {lookup(@storage, @contract, $0)} | {ret = alloc()}
exit !{lookup(@storage, @contract, $0)} | {(FLAG_CONST & read_fail(lookup(@storage, @contract, $0)).flags)} | {has(@key_map, $0)}
exit !{lookup(@storage, @contract, $0)} | {(FLAG_KEY & read_fail(lookup(@storage, @contract, $0)).flags)} | {has(@key_map, $0)}
exit !{lookup(@storage, @contract, $0)} | {did at(@key_map, read_fail(lookup(@storage, @contract, $0))) = lookup(@storage, @contract, $0)} | {has(@key_map, $0)}
exit !{lookup(@storage, @contract, $0)} | {did read_fail(lookup(@storage, @contract, $0))} | {has(@key_map, $0)}
exit {$1} | {did addref(write(alloc(), $0))} | {has(@key_map, $0)} | {lookup(@storage, @contract, $0)}
exit {$1} | {did alloc()} | {has(@key_map, $0)} | {lookup(@storage, @contract, $0)}
exit {$1} | {did at(@key_map, write(alloc(), $0)) = alloc()} | {has(@key_map, $0)} | {lookup(@storage, @contract, $0)}
exit {$1} | {did write(alloc(), $0).flags = u8((FLAG_CONST | FLAG_KEY | write(alloc(), $0).flags))} | {has(@key_map, $0)} | {lookup(@storage, @contract, $0)}
exit {$1} | {did write(alloc(), $0)} | {has(@key_map, $0)} | {lookup(@storage, @contract, $0)}
at read_fail(lookup(@storage, @contract, $0)) ;; !{has(@key_map, $0)} ;; {lookup(@storage, @contract, $0)}
at at(@key_map, read_fail(lookup(@storage, @contract, $0))) = lookup(@storage, @contract, $0) ;; !{has(@key_map, $0)} ;; {lookup(@storage, @contract, $0)} ;; {(FLAG_CONST & read_fail(lookup(@storage, @contract, $0)).flags)} ;; {(FLAG_KEY & read_fail(lookup(@storage, @contract, $0)).flags)}
at alloc() ;; !{has(@key_map, $0)} ;; !{lookup(@storage, @contract, $0)} ;; !{$1}
at write(alloc(), $0) ;; !{has(@key_map, $0)} ;; !{lookup(@storage, @contract, $0)} ;; !{$1}
at write(alloc(), $0).flags = u8((FLAG_CONST | FLAG_KEY | write(alloc(), $0).flags)) ;; !{has(@key_map, $0)} ;; !{lookup(@storage, @contract, $0)} ;; !{$1}
at addref(write(alloc(), $0)) ;; !{has(@key_map, $0)} ;; !{lookup(@storage, @contract, $0)} ;; !{$1}
at at(@key_map, write(alloc(), $0)) = alloc() ;; !{has(@key_map, $0)} ;; !{lookup(@storage, @contract, $0)} ;; !{$1}
fn mmx::vm::Engine::write sig=(const~unsigned~long,~const~mmx::vm::var_t~*
each write($0, $1) ;; {$1}
each write($0, ctor(vm::var_t)) ;; !{$1}
never throw …
exit !{$1} | {ret = write($0, $1)}
exit {$1} | {ret = write($0, ctor(vm::var_t))}
exit !{$1} | {did write($0, $1)}
exit {$1} | {did write($0, ctor(vm::var_t))}
at write($0, $1) ;; {$1}
at write($0, ctor(vm::var_t)) ;; !{$1}
fn mmx::vm::Engine::write sig=(const~unsigned~long,~const~mmx::vm::var_t~&
each at(@memory, $0) = read(@storage, @contract, $0) ;; !{$0 < MEM_EXTERN} | !{@have_init} ;; !{at(@memory, $0)} ;; !{$0 < MEM_STATIC} ;; {$0 < @new_heap_base}
each write(ite((!{$0 < @new_heap_base} || {$0 < MEM_STATIC} || {at(@memory, $0)}), at(@memory, $0), read(@storage, @contract, $0)), $0, $1) ;; !{$0 < MEM_EXTERN} | !{@have_init}
raise {@have_init} ;; {$0 < MEM_EXTERN}
exit {did write(ite((!{$0 < @new_heap_base} || {$0 < MEM_STATIC} || {at(@memory, $0)}), at(@memory, $0), read(@storage, @contract, $0)), $0, $1)}
exit {ret = write(ite((!{$0 < @new_heap_base} || {$0 < MEM_STATIC} || {at(@memory, $0)}), at(@memory, $0), read(@storage, @contract, $0)), $0, $1)}
exit !{$0 < MEM_EXTERN} | !{@have_init}
exit !{$0 < @new_heap_base} | {$0 < MEM_STATIC} | {at(@memory, $0)} | {did at(@memory, $0) = read(@storage, @contract, $0)}
at at(@memory, $0) = read(@storage, @contract, $0) ;; !{at(@memory, $0)} ;; !{$0 < MEM_STATIC} ;; {$0 < @new_heap_base}
at write(ite((!{$0 < @new_heap_base} || {$0 < MEM_STATIC} || {at(@memory, $0)}), at(@memory, $0), read(@storage, @contract, $0)), $0, $1)
fn mmx::vm::Engine::write sig=varptr_t
each write($0, get($1))
never throw …
exit {did write($0, get($1))}
exit {ret = write($0, get($1))}
at write($0, get($1))
fn mmx::vm::Engine::write sig=(std::uni
never break(loop)
at write_entry($1, fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1)).first.second, fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1)).second) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_MAP} ;; {$1} ;; !{($2.flags & FLAG_STORED)} ;; !{end(@entries) == fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1))} ;; {$2.address == fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1)).first.first} ;; {fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1)).second} ;; !{(FLAG_DELETED & fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1)).second.flags)}
each $0.flags = u8(($0.flags | FLAG_DIRTY)) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; {($0.flags & FLAG_DELETED)}
each $0.flags = u8(($0.flags & ~(FLAG_DELETED))) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; {($0.flags & FLAG_DELETED)}
each $0.flags = u8(($0.flags | FLAG_DIRTY)) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; {$2.type == vm::TYPE_FALSE} | {$2.type == vm::TYPE_NIL} | {$2.type == vm::TYPE_TRUE} ;; {$0.type == vm::TYPE_FALSE} | {$0.type == vm::TYPE_NIL} | {$0.type == vm::TYPE_TRUE} ;; !{$0.type == $2.type}
each $0.type = $2.type ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; {$2.type == vm::TYPE_FALSE} | {$2.type == vm::TYPE_NIL} | {$2.type == vm::TYPE_TRUE} ;; {$0.type == vm::TYPE_FALSE} | {$0.type == vm::TYPE_NIL} | {$0.type == vm::TYPE_TRUE} ;; !{$0.type == $2.type}
each unref($0.address) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; {$2.type == vm::TYPE_REF} ;; {$0.type == vm::TYPE_REF} ;; !{$0.address == $2.address}
each $0.flags = u8(($0.flags | FLAG_DIRTY)) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; {$2.type == vm::TYPE_REF} ;; {$0.type == vm::TYPE_REF} ;; !{$0.address == $2.address}
each $0.address = $2.address ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; {$2.type == vm::TYPE_REF} ;; {$0.type == vm::TYPE_REF} ;; !{$0.address == $2.address}
each addref($0.address) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; {$2.type == vm::TYPE_REF} ;; {$0.type == vm::TYPE_REF} ;; !{$0.address == $2.address}
each $0.flags = u8(($0.flags | FLAG_DIRTY)) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; {$2.type == vm::TYPE_UINT} ;; {$0.type == vm::TYPE_UINT} ;; !{$0.value == $2.value}
each $0.value = $2.value ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; {$2.type == vm::TYPE_UINT} ;; {$0.type == vm::TYPE_UINT} ;; !{$0.value == $2.value}
each assign($0, new(vm::var_t,default_delete<vm::var_t>, $2.type)) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_FALSE} | {$2.type == vm::TYPE_NIL} | {$2.type == vm::TYPE_TRUE}
each assign($0, new(vm::ref_t,default_delete<vm::ref_t>, $2.address)) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_REF}
each assign($0, new(vm::uint_t,default_delete<vm::uint_t>, $2.value)) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_UINT}
each assign($0, alloc($2)) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_BINARY} | {$2.type == vm::TYPE_STRING}
each %unique_ptr<vm::array_t,default_delete<vm::array_t>>.address = $1 ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_ARRAY} ;; {$1}
each assign($0, %unique_ptr<vm::array_t,default_delete<vm::array_t>>) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_ARRAY} ;; {$1}
each read_entry_fail($2.address, idx($2.size)) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_ARRAY} ;; {$1}
each write_entry($1, idx($2.size), read_entry_fail($2.address, idx($2.size))) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_ARRAY} ;; {$1}
each check_gas() ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_ARRAY} ;; {$1}
each %unique_ptr<vm::map_t,default_delete<vm::map_t>>.address = $1 ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_MAP} ;; {$1} ;; !{($2.flags & FLAG_STORED)}
each assign($0, %unique_ptr<vm::map_t,default_delete<vm::map_t>>) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_MAP} ;; {$1} ;; !{($2.flags & FLAG_STORED)}
each write_entry($1, fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1)).first.second, fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1)).second) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_MAP} ;; {$1} ;; !{($2.flags & FLAG_STORED)} ;; !{end(@entries) == fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1))} ;; {$2.address == fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1)).first.first} ;; {fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1)).second} ;; !{(FLAG_DELETED & fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1)).second.flags)}
each check_gas() ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_MAP} ;; {$1} ;; !{($2.flags & FLAG_STORED)} ;; !{end(@entries) == fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1))} ;; {$2.address == fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1)).first.first} ;; {fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1)).second} ;; !{(FLAG_DELETED & fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1)).second.flags)}
raise !{$0 == $2} ;; {($2.flags & FLAG_DELETED)}
raise !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$0} ;; {($0.flags & FLAG_CONST)} ;; {$1}
raise !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$0} ;; {($0.flags & FLAG_CONST)} ;; !{$1}
raise !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_ARRAY} ;; !{$1}
raise !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_MAP} ;; !{$1}
raise !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_MAP} ;; {$1} ;; {($2.flags & FLAG_STORED)}
raise !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; !{$2.type == vm::TYPE_NIL} ;; !{$2.type == vm::TYPE_TRUE} ;; !{$2.type == vm::TYPE_FALSE} ;; !{$2.type == vm::TYPE_REF} ;; !{$2.type == vm::TYPE_UINT} ;; !{$2.type == vm::TYPE_STRING} ;; !{$2.type == vm::TYPE_BINARY} ;; !{$2.type == vm::TYPE_ARRAY} ;; !{$2.type == vm::TYPE_MAP}
value fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1))
exit !{$0 == $2} | {out $0 = $0}
exit !{$0.type == vm::TYPE_FALSE} | !{$0} | !{$2.type == vm::TYPE_FALSE} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {out $0 = $0}
exit !{$0.type == vm::TYPE_FALSE} | !{$0} | !{$2.type == vm::TYPE_NIL} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {out $0 = $0}
exit !{$0.type == vm::TYPE_FALSE} | !{$0} | !{$2.type == vm::TYPE_TRUE} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {out $0 = $0}
exit !{$0.type == vm::TYPE_NIL} | !{$0} | !{$2.type == vm::TYPE_FALSE} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {out $0 = $0}
exit !{$0.type == vm::TYPE_NIL} | !{$0} | !{$2.type == vm::TYPE_NIL} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {out $0 = $0}
exit !{$0.type == vm::TYPE_NIL} | !{$0} | !{$2.type == vm::TYPE_TRUE} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {out $0 = $0}
exit !{$0.type == vm::TYPE_REF} | !{$0} | !{$2.type == vm::TYPE_REF} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {out $0 = $0}
exit !{$0.type == vm::TYPE_TRUE} | !{$0} | !{$2.type == vm::TYPE_FALSE} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {out $0 = $0}
exit !{$0.type == vm::TYPE_TRUE} | !{$0} | !{$2.type == vm::TYPE_NIL} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {out $0 = $0}
exit !{$0.type == vm::TYPE_TRUE} | !{$0} | !{$2.type == vm::TYPE_TRUE} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {out $0 = $0}
exit !{$0.type == vm::TYPE_UINT} | !{$0} | !{$2.type == vm::TYPE_UINT} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {out $0 = $0}
exit !{$2.type == vm::TYPE_ARRAY} | !{($0.flags & FLAG_CONST)} | {$0 == $2} | {out $0 = out(assign‥, %unique_ptr<vm::array_t,default_delete<vm::array_t>>)}
exit !{$2.type == vm::TYPE_ARRAY} | !{($2.flags & FLAG_DELETED)} | {$0 == $2} | {out $0 = out(assign‥, %unique_ptr<vm::array_t,default_delete<vm::array_t>>)}
exit !{$2.type == vm::TYPE_ARRAY} | {$0 == $2} | {$0.type == vm::TYPE_FALSE} | {$0.type == vm::TYPE_NIL} | {$0.type == vm::TYPE_TRUE} | {out $0 = out(assign‥, %unique_ptr<vm::array_t,default_delete<vm::array_t>>)}
exit !{$2.type == vm::TYPE_ARRAY} | {$0 == $2} | {$0} | {out $0 = out(assign‥, %unique_ptr<vm::array_t,default_delete<vm::array_t>>)}
exit !{$2.type == vm::TYPE_ARRAY} | {$0 == $2} | {$2.type == vm::TYPE_FALSE} | {$2.type == vm::TYPE_NIL} | {$2.type == vm::TYPE_TRUE} | {out $0 = out(assign‥, %unique_ptr<vm::array_t,default_delete<vm::array_t>>)}
exit !{$2.type == vm::TYPE_UINT} | !{($0.flags & FLAG_CONST)} | {$0 == $2} | {out $0 = out(assign‥, new(vm::uint_t,default_delete<vm::uint_t>, $2.value))}
exit !{$2.type == vm::TYPE_UINT} | !{($2.flags & FLAG_DELETED)} | {$0 == $2} | {out $0 = out(assign‥, new(vm::uint_t,default_delete<vm::uint_t>, $2.value))}
exit !{$2.type == vm::TYPE_UINT} | {$0 == $2} | {$0} | {out $0 = out(assign‥, new(vm::uint_t,default_delete<vm::uint_t>, $2.value))}
exit !{$0 == $2} | {ret = $0}
exit !{$0.type == vm::TYPE_FALSE} | !{$0} | !{$2.type == vm::TYPE_FALSE} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {ret = $0}
exit !{$0.type == vm::TYPE_FALSE} | !{$0} | !{$2.type == vm::TYPE_NIL} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {ret = $0}
exit !{$0.type == vm::TYPE_FALSE} | !{$0} | !{$2.type == vm::TYPE_TRUE} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {ret = $0}
exit !{$0.type == vm::TYPE_NIL} | !{$0} | !{$2.type == vm::TYPE_FALSE} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {ret = $0}
exit !{$0.type == vm::TYPE_NIL} | !{$0} | !{$2.type == vm::TYPE_NIL} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {ret = $0}
exit !{$0.type == vm::TYPE_NIL} | !{$0} | !{$2.type == vm::TYPE_TRUE} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {ret = $0}
exit !{$0.type == vm::TYPE_REF} | !{$0} | !{$2.type == vm::TYPE_REF} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {ret = $0}
exit !{$0.type == vm::TYPE_TRUE} | !{$0} | !{$2.type == vm::TYPE_FALSE} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {ret = $0}
exit !{$0.type == vm::TYPE_TRUE} | !{$0} | !{$2.type == vm::TYPE_NIL} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {ret = $0}
exit !{$0.type == vm::TYPE_TRUE} | !{$0} | !{$2.type == vm::TYPE_TRUE} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {ret = $0}
exit !{$0.type == vm::TYPE_UINT} | !{$0} | !{$2.type == vm::TYPE_UINT} | {($0.flags & FLAG_CONST)} | {($2.flags & FLAG_DELETED)} | {ret = $0}
exit !{$2.type == vm::TYPE_ARRAY} | !{($0.flags & FLAG_CONST)} | {$0 == $2} | {ret = out(assign‥, %unique_ptr<vm::array_t,default_delete<vm::array_t>>)}
exit !{$2.type == vm::TYPE_ARRAY} | !{($2.flags & FLAG_DELETED)} | {$0 == $2} | {ret = out(assign‥, %unique_ptr<vm::array_t,default_delete<vm::array_t>>)}
exit !{$2.type == vm::TYPE_ARRAY} | {$0 == $2} | {$0.type == vm::TYPE_FALSE} | {$0.type == vm::TYPE_NIL} | {$0.type == vm::TYPE_TRUE} | {ret = out(assign‥, %unique_ptr<vm::array_t,default_delete<vm::array_t>>)}
exit !{$2.type == vm::TYPE_ARRAY} | {$0 == $2} | {$0} | {ret = out(assign‥, %unique_ptr<vm::array_t,default_delete<vm::array_t>>)}
exit !{$2.type == vm::TYPE_ARRAY} | {$0 == $2} | {$2.type == vm::TYPE_FALSE} | {$2.type == vm::TYPE_NIL} | {$2.type == vm::TYPE_TRUE} | {ret = out(assign‥, %unique_ptr<vm::array_t,default_delete<vm::array_t>>)}
exit !{$2.type == vm::TYPE_ARRAY} | {…} | {$0 == $2} | {$0.type == vm::TYPE_REF} | {$0.type == vm::TYPE_UINT} | {ret = out(assign‥, %unique_ptr<vm::array_t,default_delete<vm::array_t>>)}
exit !{$2.type == vm::TYPE_ARRAY} | {…} | {$0 == $2} | {$0.type == vm::TYPE_REF} | {$2.type == vm::TYPE_UINT} | {ret = out(assign‥, %unique_ptr<vm::array_t,default_delete<vm::array_t>>)}
exit !{$2.type == vm::TYPE_ARRAY} | {…} | {$0 == $2} | {$0.type == vm::TYPE_UINT} | {$2.type == vm::TYPE_REF} | {ret = out(assign‥, %unique_ptr<vm::array_t,default_delete<vm::array_t>>)}
exit !{$2.type == vm::TYPE_ARRAY} | {…} | {$0 == $2} | {$2.type == vm::TYPE_REF} | {$2.type == vm::TYPE_UINT} | {ret = out(assign‥, %unique_ptr<vm::array_t,default_delete<vm::array_t>>)}
exit !{$2.type == vm::TYPE_FALSE} | !{($0.flags & FLAG_CONST)} | {…} | {$0 == $2} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_FALSE} | !{($2.flags & FLAG_DELETED)} | {…} | {$0 == $2} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_FALSE} | {…} | {$0 == $2} | {$0.type == vm::TYPE_REF} | {$0.type == vm::TYPE_UINT} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_FALSE} | {…} | {$0 == $2} | {$0.type == vm::TYPE_REF} | {$2.type == vm::TYPE_UINT} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_FALSE} | {…} | {$0 == $2} | {$0.type == vm::TYPE_UINT} | {$2.type == vm::TYPE_REF} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_FALSE} | {…} | {$0 == $2} | {$0} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_FALSE} | {…} | {$0 == $2} | {$2.type == vm::TYPE_REF} | {$2.type == vm::TYPE_UINT} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_NIL} | !{($0.flags & FLAG_CONST)} | {…} | {$0 == $2} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_NIL} | !{($2.flags & FLAG_DELETED)} | {…} | {$0 == $2} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_NIL} | {…} | {$0 == $2} | {$0.type == vm::TYPE_REF} | {$0.type == vm::TYPE_UINT} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_NIL} | {…} | {$0 == $2} | {$0.type == vm::TYPE_REF} | {$2.type == vm::TYPE_UINT} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_NIL} | {…} | {$0 == $2} | {$0.type == vm::TYPE_UINT} | {$2.type == vm::TYPE_REF} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_NIL} | {…} | {$0 == $2} | {$0} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_NIL} | {…} | {$0 == $2} | {$2.type == vm::TYPE_REF} | {$2.type == vm::TYPE_UINT} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_REF} | !{($0.flags & FLAG_CONST)} | {…} | {$0 == $2} | {ret = out(assign‥, new(vm::ref_t,default_delete<vm::ref_t>, $2.address))}
exit !{$2.type == vm::TYPE_REF} | !{($2.flags & FLAG_DELETED)} | {…} | {$0 == $2} | {ret = out(assign‥, new(vm::ref_t,default_delete<vm::ref_t>, $2.address))}
exit !{$2.type == vm::TYPE_REF} | {…} | {$0 == $2} | {$0.type == vm::TYPE_REF} | {$0.type == vm::TYPE_UINT} | {ret = out(assign‥, new(vm::ref_t,default_delete<vm::ref_t>, $2.address))}
exit !{$2.type == vm::TYPE_REF} | {…} | {$0 == $2} | {$0.type == vm::TYPE_REF} | {$2.type == vm::TYPE_UINT} | {ret = out(assign‥, new(vm::ref_t,default_delete<vm::ref_t>, $2.address))}
exit !{$2.type == vm::TYPE_REF} | {…} | {$0 == $2} | {$0} | {ret = out(assign‥, new(vm::ref_t,default_delete<vm::ref_t>, $2.address))}
exit !{$2.type == vm::TYPE_TRUE} | !{($0.flags & FLAG_CONST)} | {…} | {$0 == $2} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_TRUE} | !{($2.flags & FLAG_DELETED)} | {…} | {$0 == $2} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_TRUE} | {…} | {$0 == $2} | {$0.type == vm::TYPE_REF} | {$0.type == vm::TYPE_UINT} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_TRUE} | {…} | {$0 == $2} | {$0.type == vm::TYPE_REF} | {$2.type == vm::TYPE_UINT} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_TRUE} | {…} | {$0 == $2} | {$0.type == vm::TYPE_UINT} | {$2.type == vm::TYPE_REF} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_TRUE} | {…} | {$0 == $2} | {$0} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_TRUE} | {…} | {$0 == $2} | {$2.type == vm::TYPE_REF} | {$2.type == vm::TYPE_UINT} | {ret = out(assign‥, new(vm::var_t,default_delete<vm::var_t>, $2.type))}
exit !{$2.type == vm::TYPE_UINT} | !{($0.flags & FLAG_CONST)} | {$0 == $2} | {ret = out(assign‥, new(vm::uint_t,default_delete<vm::uint_t>, $2.value))}
exit !{$2.type == vm::TYPE_UINT} | !{($2.flags & FLAG_DELETED)} | {$0 == $2} | {ret = out(assign‥, new(vm::uint_t,default_delete<vm::uint_t>, $2.value))}
exit !{$2.type == vm::TYPE_UINT} | {$0 == $2} | {$0} | {ret = out(assign‥, new(vm::uint_t,default_delete<vm::uint_t>, $2.value))}
exit !{$2.type == vm::TYPE_UINT} | {…} | {$0 == $2} | {$0.type == vm::TYPE_REF} | {$0.type == vm::TYPE_UINT} | {ret = out(assign‥, new(vm::uint_t,default_delete<vm::uint_t>, $2.value))}
exit !{$2.type == vm::TYPE_UINT} | {…} | {$0 == $2} | {$0.type == vm::TYPE_UINT} | {$2.type == vm::TYPE_REF} | {ret = out(assign‥, new(vm::uint_t,default_delete<vm::uint_t>, $2.value))}
exit !{…} | {$0 == $2} | {ret = $0}
exit !{($2.flags & FLAG_DELETED)} | {$0 == $2}
at $0.flags = u8(($0.flags | FLAG_DIRTY)) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$0} ;; !{($0.flags & FLAG_CONST)}
at $0.flags = u8(($0.flags & ~(FLAG_DELETED))) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; {($0.flags & FLAG_DELETED)}
at $0.type = $2.type ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; {$2.type == vm::TYPE_FALSE} | {$2.type == vm::TYPE_NIL} | {$2.type == vm::TYPE_TRUE} ;; {$0.type == vm::TYPE_FALSE} | {$0.type == vm::TYPE_NIL} | {$0.type == vm::TYPE_TRUE} ;; !{$0.type == $2.type}
at unref($0.address) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; {$2.type == vm::TYPE_REF} ;; {$0.type == vm::TYPE_REF} ;; !{$0.address == $2.address}
at $0.address = $2.address ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; {$2.type == vm::TYPE_REF} ;; {$0.type == vm::TYPE_REF} ;; !{$0.address == $2.address}
at addref($0.address) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; {$2.type == vm::TYPE_REF} ;; {$0.type == vm::TYPE_REF} ;; !{$0.address == $2.address}
at $0.value = $2.value ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; {$2.type == vm::TYPE_UINT} ;; {$0.type == vm::TYPE_UINT} ;; !{$0.value == $2.value}
at assign($0, new(vm::var_t,default_delete<vm::var_t>, $2.type)) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_FALSE} | {$2.type == vm::TYPE_NIL} | {$2.type == vm::TYPE_TRUE} ;; !{$0} | !{($0.flags & FLAG_CONST)} ;; !{$0.type == vm::TYPE_FALSE} | !{$0} | !{$2.type == vm::TYPE_FALSE} ;; !{$0.type == vm::TYPE_FALSE} | !{$0} | !{$2.type == vm::TYPE_NIL} ;; !{$0.type == vm::TYPE_FALSE} | !{$0} | !{$2.type == vm::TYPE_TRUE} ;; !{$0.type == vm::TYPE_NIL} | !{$0} | !{$2.type == vm::TYPE_FALSE} ;; !{$0.type == vm::TYPE_NIL} | !{$0} | !{$2.type == vm::TYPE_NIL} ;; !{$0.type == vm::TYPE_NIL} | !{$0} | !{$2.type == vm::TYPE_TRUE} ;; !{$0.type == vm::TYPE_TRUE} | !{$0} | !{$2.type == vm::TYPE_FALSE} ;; !{$0.type == vm::TYPE_TRUE} | !{$0} | !{$2.type == vm::TYPE_NIL} ;; !{$0.type == vm::TYPE_TRUE} | !{$0} | !{$2.type == vm::TYPE_TRUE}
at assign($0, new(vm::ref_t,default_delete<vm::ref_t>, $2.address)) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_REF} ;; !{$2.type == vm::TYPE_FALSE} ;; !{$2.type == vm::TYPE_NIL} ;; !{$2.type == vm::TYPE_TRUE} ;; !{$0.type == vm::TYPE_REF} | !{$0} ;; !{$0} | !{($0.flags & FLAG_CONST)}
at assign($0, new(vm::uint_t,default_delete<vm::uint_t>, $2.value)) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_UINT} ;; !{$2.type == vm::TYPE_FALSE} ;; !{$2.type == vm::TYPE_NIL} ;; !{$2.type == vm::TYPE_REF} ;; !{$2.type == vm::TYPE_TRUE} ;; !{$0} | !{($0.flags & FLAG_CONST)}
at assign($0, alloc($2)) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_BINARY} | {$2.type == vm::TYPE_STRING} ;; !{$0} | !{($0.flags & FLAG_CONST)} ;; !{$0.type == vm::TYPE_FALSE} | !{$0} | !{$2.type == vm::TYPE_FALSE} ;; !{$0.type == vm::TYPE_FALSE} | !{$0} | !{$2.type == vm::TYPE_NIL} ;; !{$0.type == vm::TYPE_FALSE} | !{$0} | !{$2.type == vm::TYPE_TRUE} ;; !{$0.type == vm::TYPE_NIL} | !{$0} | !{$2.type == vm::TYPE_FALSE} ;; !{$0.type == vm::TYPE_NIL} | !{$0} | !{$2.type == vm::TYPE_NIL} ;; !{$0.type == vm::TYPE_NIL} | !{$0} | !{$2.type == vm::TYPE_TRUE} ;; !{$0.type == vm::TYPE_TRUE} | !{$0} | !{$2.type == vm::TYPE_FALSE} ;; !{$0.type == vm::TYPE_TRUE} | !{$0} | !{$2.type == vm::TYPE_NIL} ;; !{$0.type == vm::TYPE_TRUE} | !{$0} | !{$2.type == vm::TYPE_TRUE}
at %unique_ptr<vm::array_t,default_delete<vm::array_t>>.address = $1 ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_ARRAY} ;; {$1} ;; !{$2.type == vm::TYPE_FALSE} ;; !{$2.type == vm::TYPE_NIL} ;; !{$2.type == vm::TYPE_REF} ;; !{$2.type == vm::TYPE_TRUE} ;; !{$0} | !{($0.flags & FLAG_CONST)}
at assign($0, %unique_ptr<vm::array_t,default_delete<vm::array_t>>) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_ARRAY} ;; {$1} ;; !{$2.type == vm::TYPE_FALSE} ;; !{$2.type == vm::TYPE_NIL} ;; !{$2.type == vm::TYPE_REF} ;; !{$2.type == vm::TYPE_TRUE} ;; !{$0} | !{($0.flags & FLAG_CONST)}
at read_entry_fail($2.address, idx($2.size)) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_ARRAY} ;; {$1} ;; !{$2.type == vm::TYPE_FALSE} ;; !{$2.type == vm::TYPE_NIL} ;; !{$2.type == vm::TYPE_REF} ;; !{$2.type == vm::TYPE_TRUE} ;; !{$0} | !{($0.flags & FLAG_CONST)}
at write_entry($1, idx($2.size), read_entry_fail($2.address, idx($2.size))) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_ARRAY} ;; {$1} ;; !{$2.type == vm::TYPE_FALSE} ;; !{$2.type == vm::TYPE_NIL} ;; !{$2.type == vm::TYPE_REF} ;; !{$2.type == vm::TYPE_TRUE} ;; !{$0} | !{($0.flags & FLAG_CONST)}
at check_gas() ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$1} ;; !{$2.type == vm::TYPE_FALSE} ;; !{$2.type == vm::TYPE_NIL} ;; !{$2.type == vm::TYPE_REF} ;; !{$2.type == vm::TYPE_TRUE} ;; !{$0} | !{($0.flags & FLAG_CONST)}
at %unique_ptr<vm::map_t,default_delete<vm::map_t>>.address = $1 ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_MAP} ;; {$1} ;; !{($2.flags & FLAG_STORED)} ;; !{$2.type == vm::TYPE_FALSE} ;; !{$2.type == vm::TYPE_NIL} ;; !{$2.type == vm::TYPE_REF} ;; !{$2.type == vm::TYPE_TRUE} ;; !{$0} | !{($0.flags & FLAG_CONST)}
at assign($0, %unique_ptr<vm::map_t,default_delete<vm::map_t>>) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_MAP} ;; {$1} ;; !{($2.flags & FLAG_STORED)} ;; !{$2.type == vm::TYPE_FALSE} ;; !{$2.type == vm::TYPE_NIL} ;; !{$2.type == vm::TYPE_REF} ;; !{$2.type == vm::TYPE_TRUE} ;; !{$0} | !{($0.flags & FLAG_CONST)}
at write_entry($1, fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1)).first.second, fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1)).second) ;; !{$0 == $2} ;; !{($2.flags & FLAG_DELETED)} ;; {$2.type == vm::TYPE_MAP} ;; {$1} ;; !{($2.flags & FLAG_STORED)} ;; !{end(@entries) == fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1))} ;; {$2.address == fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1)).first.first} ;; {fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1)).second} ;; !{(FLAG_DELETED & fold(lower_bound(@entries, pair($2.address, 0)), (~ + 1)).second.flags)} ;; !{$2.type == vm::TYPE_FALSE} ;; !{$2.type == vm::TYPE_NIL} ;; !{$2.type == vm::TYPE_REF} ;; !{$2.type == vm::TYPE_TRUE} ;; !{$0} | !{($0.flags & FLAG_CONST)}
fn mmx::vm::Engine::push_back sig=var_t~&
each read_fail($0, vm::TYPE_ARRAY)
each read_fail($0, vm::TYPE_ARRAY).size = (read_fail($0, vm::TYPE_ARRAY).size + 1) ;; {read_fail($0, vm::TYPE_ARRAY).size < max()}
each write_entry($0, read_fail($0, vm::TYPE_ARRAY).size, $1) ;; {read_fail($0, vm::TYPE_ARRAY).size < max()}
each read_fail($0, vm::TYPE_ARRAY).flags = u8((FLAG_DIRTY | read_fail($0, vm::TYPE_ARRAY).flags)) ;; {read_fail($0, vm::TYPE_ARRAY).size < max()}
raise !{read_fail($0, vm::TYPE_ARRAY).size < max()}
exit {did read_fail($0, vm::TYPE_ARRAY).flags = u8((FLAG_DIRTY | read_fail($0, vm::TYPE_ARRAY).flags))}
exit {did read_fail($0, vm::TYPE_ARRAY).size = (read_fail($0, vm::TYPE_ARRAY).size + 1)}
exit {did read_fail($0, vm::TYPE_ARRAY)}
exit {did write_entry($0, read_fail($0, vm::TYPE_ARRAY).size, $1)}
exit {read_fail($0, vm::TYPE_ARRAY).size < max()}
at read_fail($0, vm::TYPE_ARRAY)
at read_fail($0, vm::TYPE_ARRAY).size = (read_fail($0, vm::TYPE_ARRAY).size + 1)
at write_entry($0, read_fail($0, vm::TYPE_ARRAY).size, $1)
at read_fail($0, vm::TYPE_ARRAY).flags = u8((FLAG_DIRTY | read_fail($0, vm::TYPE_ARRAY).flags))
fn mmx::vm::Engine::push_back sig=varptr_t
each push_back($0, $1) ;; {$1}
each push_back($0, ctor(vm::var_t)) ;; !{$1}
never throw …
exit !{$1} | {did push_back($0, $1)}
exit {$1} | {did push_back($0, ctor(vm::var_t))}
at push_back($0, $1) ;; {$1}
at push_back($0, ctor(vm::var_t)) ;; !{$1}
fn mmx::vm::Engine::push_back sig=unsigned~long,~const~unsigned~long
each read_fail($1) ;; !{$0 == $1}
each push_back($0, read_fail($1)) ;; !{$0 == $1}
raise {$0 == $1}
exit !{$0 == $1}
exit {did push_back($0, read_fail($1))}
exit {did read_fail($1)}
at read_fail($1)
at push_back($0, read_fail($1))
fn mmx::vm::Engine::write_entry sig=var_t~&
each read_fail($0) ;; !{$0 < MEM_EXTERN} | !{@have_init}
each write(at(@entries, pair($0, $1)), 0, $2) ;; !{$0 < MEM_EXTERN} | !{@have_init} ;; !{(FLAG_CONST & read_fail($0).flags)}
raise {@have_init} ;; {$0 < MEM_EXTERN}
raise !{$0 < MEM_EXTERN} | !{@have_init} ;; {(FLAG_CONST & read_fail($0).flags)}
exit {did read_entry($0, $1)} | {did read(@storage, @contract, $0, $1)} | {at(@entries, pair($0, $1))} | !{(FLAG_STORED & read_fail($0).flags)}
exit !{(FLAG_CONST & read_fail($0).flags)}
exit {did read_fail($0)}
exit {did write(at(@entries, pair($0, $1)), 0, $2)}
exit {ret = write(at(@entries, pair($0, $1)), 0, $2)}
exit !{$0 < MEM_EXTERN} | !{@have_init}
at read_fail($0)
at write(at(@entries, pair($0, $1)), 0, $2)
fn mmx::vm::Engine::write_entry sig=varptr
each write_entry($0, $1, $2) ;; {$2}
each write_entry($0, $1, ctor(vm::var_t)) ;; !{$2}
never throw …
exit !{$2} | {ret = write_entry($0, $1, $2)}
exit {$2} | {ret = write_entry($0, $1, ctor(vm::var_t))}
exit !{$2} | {did write_entry($0, $1, $2)}
exit {$2} | {did write_entry($0, $1, ctor(vm::var_t))}
at write_entry($0, $1, $2) ;; {$2}
at write_entry($0, $1, ctor(vm::var_t)) ;; !{$2}
fn mmx::vm::Engine::write_key sig=const~unsigned~long,~const~unsigned~long
each lookup($1, false)
each write_entry($0, lookup($1, false), $2)
never throw …
exit {did lookup($1, false)}
exit {did write_entry($0, lookup($1, false), $2)}
exit {ret = write_entry($0, lookup($1, false), $2)}
at lookup($1, false)
at write_entry($0, lookup($1, false), $2)
fn mmx::vm::Engine::write_key sig=(const~unsigned~long,~const~mmx::vm::var_t
each lookup($1, false)
each write_entry($0, lookup($1, false), $2)
never throw …
exit {did lookup($1, false)}
exit {did write_entry($0, lookup($1, false), $2)}
exit {ret = write_entry($0, lookup($1, false), $2)}
at lookup($1, false)
at write_entry($0, lookup($1, false), $2)
fn mmx::vm::Engine::write_key sig=varptr
each lookup($1, false)
each write_entry($0, lookup($1, false), $2)
never throw …
exit {did lookup($1, false)}
exit {did write_entry($0, lookup($1, false), $2)}
exit {ret = write_entry($0, lookup($1, false), $2)}
at lookup($1, false)
at write_entry($0, lookup($1, false), $2)
fn mmx::vm::Engine::erase sig=(const~unsigned~long)
each erase(at(@memory, $0)) ;; {has(@memory, $0)}
each at(@memory, $0) = read(@storage, @contract, $0) ;; !{has(@memory, $0)} ;; !{$0 < MEM_STATIC} ;; {read(@storage, @contract, $0)}
each erase(read(@storage, @contract, $0)) ;; !{has(@memory, $0)} ;; !{$0 < MEM_STATIC} ;; {read(@storage, @contract, $0)}
never throw …
exit !{has(@memory, $0)} | {did erase(at(@memory, $0))}
exit !{read(@storage, @contract, $0)} | {$0 < MEM_STATIC} | {did at(@memory, $0) = read(@storage, @contract, $0)} | {has(@memory, $0)}
exit !{read(@storage, @contract, $0)} | {$0 < MEM_STATIC} | {did erase(read(@storage, @contract, $0))} | {has(@memory, $0)}
at erase(at(@memory, $0)) ;; {has(@memory, $0)}
at at(@memory, $0) = read(@storage, @contract, $0) ;; !{has(@memory, $0)} ;; !{$0 < MEM_STATIC} ;; {read(@storage, @contract, $0)}
at erase(read(@storage, @contract, $0)) ;; !{has(@memory, $0)} ;; !{$0 < MEM_STATIC} ;; {read(@storage, @contract, $0)}
fn mmx::vm::Engine::erase sig=(std::uni
each @erase_call_depth = (@erase_call_depth + 1) ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; !{($0.flags & FLAG_DELETED)} ;; !{$0.ref_count}
each @gas_used = (@gas_used + WRITE_COST) ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; !{($0.flags & FLAG_DELETED)} ;; !{$0.ref_count} ;; !{MAX_ERASE_RECURSION < (@erase_call_depth + 1)}
each check_gas() ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; !{($0.flags & FLAG_DELETED)} ;; !{$0.ref_count} ;; !{MAX_ERASE_RECURSION < (@erase_call_depth + 1)}
each clear($0) ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; !{($0.flags & FLAG_DELETED)} ;; !{$0.ref_count} ;; !{MAX_ERASE_RECURSION < (@erase_call_depth + 1)}
each new(vm::var_t,default_delete<vm::var_t>).flags = u8(($0.flags | FLAG_DELETED | FLAG_DIRTY)) ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; !{($0.flags & FLAG_DELETED)} ;; !{$0.ref_count} ;; !{MAX_ERASE_RECURSION < (@erase_call_depth + 1)} ;; {($0.flags & FLAG_STORED)}
each new(vm::var_t,default_delete<vm::var_t>).flags = FLAG_DELETED ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; !{($0.flags & FLAG_DELETED)} ;; !{$0.ref_count} ;; !{MAX_ERASE_RECURSION < (@erase_call_depth + 1)} ;; !{($0.flags & FLAG_STORED)}
each @erase_call_depth = @erase_call_depth ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; !{($0.flags & FLAG_DELETED)} ;; !{$0.ref_count} ;; !{MAX_ERASE_RECURSION < (@erase_call_depth + 1)}
raise {$0} ;; {($0.flags & FLAG_CONST)}
raise {$0} ;; !{($0.flags & FLAG_CONST)} ;; !{($0.flags & FLAG_DELETED)} ;; {$0.ref_count}
raise {$0} ;; !{($0.flags & FLAG_CONST)} ;; !{($0.flags & FLAG_DELETED)} ;; !{$0.ref_count} ;; {MAX_ERASE_RECURSION < (@erase_call_depth + 1)}
exit !{$0} | {($0.flags & FLAG_DELETED)} | {out $0 = new(vm::var_t,default_delete<vm::var_t>)}
exit !{($0.flags & FLAG_DELETED)} | {out $0 = $0}
exit {$0} | {out $0 = $0}
exit !{$0} | !{($0.flags & FLAG_CONST)}
exit !{$0.ref_count} | !{$0} | {($0.flags & FLAG_DELETED)}
exit !{$0} | !{MAX_ERASE_RECURSION < (@erase_call_depth + 1)} | {($0.flags & FLAG_DELETED)}
exit !{$0} | {($0.flags & FLAG_DELETED)} | {did @erase_call_depth = (@erase_call_depth + 1)}
exit !{$0} | {($0.flags & FLAG_DELETED)} | {did @erase_call_depth = @erase_call_depth}
exit !{$0} | {($0.flags & FLAG_DELETED)} | {did @gas_used = (@gas_used + WRITE_COST)}
exit !{$0} | {($0.flags & FLAG_DELETED)} | {did check_gas()}
exit !{$0} | {($0.flags & FLAG_DELETED)} | {did clear($0)}
exit !{$0} | !{($0.flags & FLAG_STORED)} | {($0.flags & FLAG_DELETED)} | {did new(vm::var_t,default_delete<vm::var_t>).flags = u8(($0.flags | FLAG_DELETED | FLAG_DIRTY))}
exit !{$0} | {($0.flags & FLAG_DELETED)} | {($0.flags & FLAG_STORED)} | {did new(vm::var_t,default_delete<vm::var_t>).flags = FLAG_DELETED}
at @erase_call_depth = (@erase_call_depth + 1)
at @gas_used = (@gas_used + WRITE_COST) ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; !{($0.flags & FLAG_DELETED)} ;; !{$0.ref_count} ;; !{MAX_ERASE_RECURSION < (@erase_call_depth + 1)}
at check_gas() ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; !{($0.flags & FLAG_DELETED)} ;; !{$0.ref_count} ;; !{MAX_ERASE_RECURSION < (@erase_call_depth + 1)}
at clear($0) ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; !{($0.flags & FLAG_DELETED)} ;; !{$0.ref_count} ;; !{MAX_ERASE_RECURSION < (@erase_call_depth + 1)}
at new(vm::var_t,default_delete<vm::var_t>).flags = u8(($0.flags | FLAG_DELETED | FLAG_DIRTY)) ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; !{($0.flags & FLAG_DELETED)} ;; !{$0.ref_count} ;; !{MAX_ERASE_RECURSION < (@erase_call_depth + 1)} ;; {($0.flags & FLAG_STORED)}
at new(vm::var_t,default_delete<vm::var_t>).flags = FLAG_DELETED ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; !{($0.flags & FLAG_DELETED)} ;; !{$0.ref_count} ;; !{MAX_ERASE_RECURSION < (@erase_call_depth + 1)} ;; !{($0.flags & FLAG_STORED)}
at @erase_call_depth = @erase_call_depth ;; {$0} ;; !{($0.flags & FLAG_CONST)} ;; !{($0.flags & FLAG_DELETED)} ;; !{$0.ref_count} ;; !{MAX_ERASE_RECURSION < (@erase_call_depth + 1)}
fn mmx::vm::Engine::read sig=const~bool
each at(@memory, $0) = read(@storage, @contract, $0) ;; !{has(@memory, $0)} ;; !{$1} ;; !{$0 < MEM_STATIC} ;; {read(@storage, @contract, $0)}
never throw …
exit !{$0 < MEM_STATIC} | {has(@memory, $0)} | {ret = 0}
exit !{$1} | {has(@memory, $0)} | {ret = 0}
exit !{(FLAG_DELETED & at(@memory, $0).flags)} | !{at(@memory, $0)} | !{has(@memory, $0)} | {ret = 0}
exit !{has(@memory, $0)} | {(FLAG_DELETED & at(@memory, $0).flags)} | {ret = at(@memory, $0)}
exit !{has(@memory, $0)} | {at(@memory, $0)} | {ret = at(@memory, $0)}
exit !{read(@storage, @contract, $0)} | {$0 < MEM_STATIC} | {$1} | {has(@memory, $0)} | {ret = read(@storage, @contract, $0)}
exit {has(@memory, $0)} | {read(@storage, @contract, $0)} | {ret = 0}
exit !{read(@storage, @contract, $0)} | {$0 < MEM_STATIC} | {$1} | {did at(@memory, $0) = read(@storage, @contract, $0)} | {has(@memory, $0)}
at at(@memory, $0) = read(@storage, @contract, $0) ;; !{has(@memory, $0)} ;; !{$1} ;; !{$0 < MEM_STATIC} ;; {read(@storage, @contract, $0)}
fn mmx::vm::Engine::read sig=vartype
each read($0, false)
raise {read($0, false)} ;; !{$1 == read($0, false).type}
exit {did read($0, false)}
exit !{read($0, false)} | {ret = read($0, false)}
exit {read($0, false)} | {ret = 0}
exit !{read($0, false)} | {$1 == read($0, false).type}
at read($0, false)
fn mmx::vm::Engine::read_fail sig=(const~unsigned~long)
each read($0, false)
raise !{read($0, false)}
exit {did read($0, false)}
exit {read($0, false)}
exit {ret = read($0, false)}
at read($0, false)
fn mmx::vm::Engine::read_fail sig=vartype
each read_fail($0)
raise !{$1 == read_fail($0).type}
exit {$1 == read_fail($0).type}
exit {did read_fail($0)}
exit {ret = read_fail($0)}
at read_fail($0)
fn mmx::vm::Engine::read_key sig=vartype
each read_key($0, $1)
raise {read_key($0, $1)} ;; !{$2 == read_key($0, $1).type}
exit {did read_key($0, $1)}
exit !{read_key($0, $1)} | {ret = read_key($0, $1)}
exit {read_key($0, $1)} | {ret = 0}
exit !{read_key($0, $1)} | {$2 == read_key($0, $1).type}
at read_key($0, $1)
fn mmx::vm::Engine::read_key sig=(const~unsigned~long,~const~unsigned~long)
each lookup($1, true)
each read_entry($0, lookup($1, true)) ;; {lookup($1, true)}
never throw …
exit {did lookup($1, true)}
exit !{lookup($1, true)} | {ret = read_entry($0, lookup($1, true))}
exit {lookup($1, true)} | {ret = 0}
exit !{lookup($1, true)} | {did read_entry($0, lookup($1, true))}
at lookup($1, true)
at read_entry($0, lookup($1, true)) ;; {lookup($1, true)}
fn mmx::vm::Engine::read_key sig=var_t~&
each lookup($1, true)
each read_entry($0, lookup($1, true)) ;; {lookup($1, true)}
never throw …
exit {did lookup($1, true)}
exit !{lookup($1, true)} | {ret = read_entry($0, lookup($1, true))}
exit {lookup($1, true)} | {ret = 0}
exit !{lookup($1, true)} | {did read_entry($0, lookup($1, true))}
at lookup($1, true)
at read_entry($0, lookup($1, true)) ;; {lookup($1, true)}
fn mmx::vm::Engine::read_key sig=varptr
each lookup($1, true)
each read_entry($0, lookup($1, true)) ;; {lookup($1, true)}
never throw …
exit {did lookup($1, true)}
exit !{lookup($1, true)} | {ret = read_entry($0, lookup($1, true))}
exit {lookup($1, true)} | {ret = 0}
exit !{lookup($1, true)} | {did read_entry($0, lookup($1, true))}
at lookup($1, true)
at read_entry($0, lookup($1, true)) ;; {lookup($1, true)}
fn mmx::vm::Engine::read_key_fail sig=vartype
each read_key_fail($0, $1)
raise !{$2 == read_key_fail($0, $1).type}
exit {$2 == read_key_fail($0, $1).type}
exit {did read_key_fail($0, $1)}
exit {ret = read_key_fail($0, $1)}
at read_key_fail($0, $1)
fn mmx::vm::Engine::read_key_fail sig=(const~unsigned~long,~const~unsigned~long)
each lookup($1, true)
each read_entry_fail($0, lookup($1, true)) ;; {lookup($1, true)}
raise !{lookup($1, true)}
exit {did lookup($1, true)}
exit {did read_entry_fail($0, lookup($1, true))}
exit {lookup($1, true)}
exit {ret = read_entry_fail($0, lookup($1, true))}
at lookup($1, true)
at read_entry_fail($0, lookup($1, true))
