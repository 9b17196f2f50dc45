tus src/vm/Engine.cpp
fn mmx::vm::Engine::begin
never break(loop)
at fold(begin(@memory), (~ + 1)).second.flags = u8((FLAG_CONST | fold(begin(@memory), (~ + 1)).second.flags)) ;; {@have_init} ;; {empty(@call_stack)} ;; !{fold(begin(@memory), (~ + 1)) == lower_bound(@memory, MEM_STACK)} ;; {fold(begin(@memory), (~ + 1)).second}
at fold(begin(@memory), (~ + 1)).second.flags = u8((fold(begin(@memory), (~ + 1)).second.flags & ~(FLAG_DIRTY))) ;; {@have_init} ;; {empty(@call_stack)} ;; !{fold(begin(@memory), (~ + 1)) == lower_bound(@memory, MEM_STACK)} ;; {fold(begin(@memory), (~ + 1)).second}
each fold(begin(@memory), (~ + 1)).second.flags = u8((FLAG_CONST | fold(begin(@memory), (~ + 1)).second.flags)) ;; {@have_init} ;; {empty(@call_stack)} ;; !{fold(begin(@memory), (~ + 1)) == lower_bound(@memory, MEM_STACK)} ;; {fold(begin(@memory), (~ + 1)).second}
each fold(begin(@memory), (~ + 1)).second.flags = u8((fold(begin(@memory), (~ + 1)).second.flags & ~(FLAG_DIRTY))) ;; {@have_init} ;; {empty(@call_stack)} ;; !{fold(begin(@memory), (~ + 1)) == lower_bound(@memory, MEM_STACK)} ;; {fold(begin(@memory), (~ + 1)).second}
each %vm::Engine::frame_t.instr_ptr = $0 ;; {@have_init} ;; {empty(@call_stack)}
each push_back(@call_stack, %vm::Engine::frame_t) ;; {@have_init} ;; {empty(@call_stack)}
raise !{@have_init}
raise {@have_init} ;; !{empty(@call_stack)}
value fold(begin(@memory), (~ + 1))
exit {@have_init}
exit {did %vm::Engine::frame_t.instr_ptr = $0}
exit {did push_back(@call_stack, %vm::Engine::frame_t)}
exit {empty(@call_stack)}
exit {fold(begin(@memory), (~ + 1)) == lower_bound(@memory, MEM_STACK)}
exit !{fold(begin(@memory), (~ + 1)).second} | {did fold(begin(@memory), (~ + 1)).second.flags = u8((FLAG_CONST | fold(begin(@memory), (~ + 1)).second.flags))}
exit !{fold(begin(@memory), (~ + 1)).second} | {did fold(begin(@memory), (~ + 1)).second.flags = u8((fold(begin(@memory), (~ + 1)).second.flags & ~(FLAG_DIRTY)))}
at fold(begin(@memory), (~ + 1)).second.flags = u8((FLAG_CONST | fold(begin(@memory), (~ + 1)).second.flags)) ;; !{fold(begin(@memory), (~ + 1)) == lower_bound(@memory, MEM_STACK)} ;; {fold(begin(@memory), (~ + 1)).second}
at fold(begin(@memory), (~ + 1)).second.flags = u8((fold(begin(@memory), (~ + 1)).second.flags & ~(FLAG_DIRTY))) ;; !{fold(begin(@memory), (~ + 1)) == lower_bound(@memory, MEM_STACK)} ;; {fold(begin(@memory), (~ + 1)).second}
at %vm::Engine::frame_t.instr_ptr = $0
at push_back(@call_stack, %vm::Engine::frame_t)
fn mmx::vm::Engine::run
never break(loop)
each step() ;; !{empty(@call_stack)}
never throw …
exit {empty(@call_stack)}
at step() ;; !{empty(@call_stack)}
fn mmx::vm::Engine::step
each get_frame()
each exec(at(@code, get_frame().instr_ptr)) ;; {get_frame().instr_ptr < size(@code)}
each check_gas() ;; {get_frame().instr_ptr < size(@code)}
each dump_memory(0, 18446744073709551615) ;; {get_frame().instr_ptr < size(@code)} ;; {@is_debug}
each @error_addr = u32(get_frame().instr_ptr) ;; {get_frame().instr_ptr < size(@code)}
raise !{get_frame().instr_ptr < size(@code)}
exit {did check_gas()}
exit {did exec(at(@code, get_frame().instr_ptr))}
exit {did get_frame()}
exit {get_frame().instr_ptr < size(@code)}
at get_frame()
at exec(at(@code, get_frame().instr_ptr))
at check_gas()
at dump_memory(0, 18446744073709551615) ;; {@is_debug}
at @error_addr = u32(get_frame().instr_ptr)
fn mmx::vm::Engine::get
each read_fail($1)
each read_fail($2, vm::TYPE_UINT) ;; {read_fail($1).type == vm::TYPE_ARRAY}
each read_entry_fail($1, read_fail($2, vm::TYPE_UINT).value) ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; {read_fail($2, vm::TYPE_UINT).value < read_fail($1).size}
each write($0, read_entry_fail($1, read_fail($2, vm::TYPE_UINT).value)) ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; {read_fail($2, vm::TYPE_UINT).value < read_fail($1).size}
each write($0, ctor(vm::var_t)) ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; !{read_fail($2, vm::TYPE_UINT).value < read_fail($1).size} ;; !{($3 & OPFLAG_HARD_FAIL)}
each read_key($1, $2) ;; {read_fail($1).type == vm::TYPE_MAP}
each write($0, read_key($1, $2)) ;; {read_fail($1).type == vm::TYPE_MAP}
each write($0, ctor(vm::var_t)) ;; !{read_fail($1).type == vm::TYPE_ARRAY} ;; !{read_fail($1).type == vm::TYPE_MAP} ;; !{($3 & OPFLAG_HARD_FAIL)}
raise {read_fail($1).type == vm::TYPE_ARRAY} ;; !{read_fail($2, vm::TYPE_UINT).value < read_fail($1).size} ;; {($3 & OPFLAG_HARD_FAIL)}
raise !{read_fail($1).type == vm::TYPE_ARRAY} ;; !{read_fail($1).type == vm::TYPE_MAP} ;; {($3 & OPFLAG_HARD_FAIL)}
exit {did read_fail($1)}
exit !{read_fail($1).type == vm::TYPE_ARRAY} | {did read_fail($2, vm::TYPE_UINT)}
exit !{($3 & OPFLAG_HARD_FAIL)} | !{read_fail($1).type == vm::TYPE_ARRAY} | {read_fail($2, vm::TYPE_UINT).value < read_fail($1).size}
exit !{($3 & OPFLAG_HARD_FAIL)} | {read_fail($1).type == vm::TYPE_ARRAY} | {read_fail($1).type == vm::TYPE_MAP}
exit !{read_fail($1).type == vm::TYPE_ARRAY} | !{read_fail($2, vm::TYPE_UINT).value < read_fail($1).size} | {did read_entry_fail($1, read_fail($2, vm::TYPE_UINT).value)}
exit !{read_fail($1).type == vm::TYPE_ARRAY} | !{read_fail($2, vm::TYPE_UINT).value < read_fail($1).size} | {did write($0, read_entry_fail($1, read_fail($2, vm::TYPE_UINT).value))}
exit !{read_fail($1).type == vm::TYPE_ARRAY} | {did write($0, ctor(vm::var_t))} | {read_fail($2, vm::TYPE_UINT).value < read_fail($1).size}
exit !{read_fail($1).type == vm::TYPE_MAP} | {did read_key($1, $2)} | {read_fail($1).type == vm::TYPE_ARRAY}
exit !{read_fail($1).type == vm::TYPE_MAP} | {did write($0, read_key($1, $2))} | {read_fail($1).type == vm::TYPE_ARRAY}
exit {did write($0, ctor(vm::var_t))} | {read_fail($1).type == vm::TYPE_ARRAY} | {read_fail($1).type == vm::TYPE_MAP}
at read_fail($1)
at read_fail($2, vm::TYPE_UINT) ;; {read_fail($1).type == vm::TYPE_ARRAY}
at read_entry_fail($1, read_fail($2, vm::TYPE_UINT).value) ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; {read_fail($2, vm::TYPE_UINT).value < read_fail($1).size}
at write($0, read_entry_fail($1, read_fail($2, vm::TYPE_UINT).value)) ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; {read_fail($2, vm::TYPE_UINT).value < read_fail($1).size}
at write($0, ctor(vm::var_t)) ;; !{($3 & OPFLAG_HARD_FAIL)}
at read_key($1, $2) ;; {read_fail($1).type == vm::TYPE_MAP}
at write($0, read_key($1, $2)) ;; {read_fail($1).type == vm::TYPE_MAP}
fn mmx::vm::Engine::set
each read_fail($0)
each read_fail($1, vm::TYPE_UINT) ;; {read_fail($0).type == vm::TYPE_ARRAY}
each read_fail($2) ;; {read_fail($0).type == vm::TYPE_ARRAY} ;; {read_fail($1, vm::TYPE_UINT).value < read_fail($0).size}
each write_entry($0, read_fail($1, vm::TYPE_UINT).value, read_fail($2)) ;; {read_fail($0).type == vm::TYPE_ARRAY} ;; {read_fail($1, vm::TYPE_UINT).value < read_fail($0).size}
each read_fail($2) ;; {read_fail($0).type == vm::TYPE_MAP}
each write_key($0, $1, read_fail($2)) ;; {read_fail($0).type == vm::TYPE_MAP}
raise {read_fail($0).type == vm::TYPE_ARRAY} ;; !{read_fail($1, vm::TYPE_UINT).value < read_fail($0).size}
raise !{read_fail($0).type == vm::TYPE_ARRAY} ;; !{read_fail($0).type == vm::TYPE_MAP}
exit {did read_fail($0)}
exit {did read_fail($2)}
exit !{read_fail($0).type == vm::TYPE_ARRAY} | {did read_fail($1, vm::TYPE_UINT)}
exit !{read_fail($0).type == vm::TYPE_ARRAY} | {did write_entry($0, read_fail($1, vm::TYPE_UINT).value, read_fail($2))}
exit !{read_fail($0).type == vm::TYPE_ARRAY} | {read_fail($1, vm::TYPE_UINT).value < read_fail($0).size}
exit {did write_key($0, $1, read_fail($2))} | {read_fail($0).type == vm::TYPE_ARRAY}
exit {read_fail($0).type == vm::TYPE_ARRAY} | {read_fail($0).type == vm::TYPE_MAP}
at read_fail($0)
at read_fail($1, vm::TYPE_UINT) ;; {read_fail($0).type == vm::TYPE_ARRAY}
at read_fail($2)
at write_entry($0, read_fail($1, vm::TYPE_UINT).value, read_fail($2)) ;; {read_fail($0).type == vm::TYPE_ARRAY} ;; {read_fail($1, vm::TYPE_UINT).value < read_fail($0).size}
at write_key($0, $1, read_fail($2)) ;; {read_fail($0).type == vm::TYPE_MAP}
fn mmx::vm::Engine::concat
never break(loop)
each read_fail($1)
each read_fail($2)
each data(unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type), 0) ;; {read_fail($1).type == read_fail($2).type} ;; {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
each memcpy(data(unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type), 0), data(read_fail($1), 0), read_fail($1).size) ;; {read_fail($1).type == read_fail($2).type} ;; {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
each data(unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type), read_fail($1).size) ;; {read_fail($1).type == read_fail($2).type} ;; {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
each memcpy(data(unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type), read_fail($1).size), data(read_fail($2), 0), read_fail($2).size) ;; {read_fail($1).type == read_fail($2).type} ;; {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
each unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type).size = u32((read_fail($1).size + read_fail($2).size)) ;; {read_fail($1).type == read_fail($2).type} ;; {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
each assign($0, unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type)) ;; {read_fail($1).type == read_fail($2).type} ;; {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
each alloc() ;; {read_fail($1).type == read_fail($2).type} ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; !{$0 == $1} ;; !{$0 == $2}
each assign(alloc(), new(vm::array_t,default_delete<vm::array_t>)) ;; {read_fail($1).type == read_fail($2).type} ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; !{$0 == $1} ;; !{$0 == $2}
each read_entry_fail(read_fail($1).address, idx(read_fail($1).size)) ;; {read_fail($1).type == read_fail($2).type} ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; !{$0 == $1} ;; !{$0 == $2}
each push_back(alloc(), read_entry_fail(read_fail($1).address, idx(read_fail($1).size))) ;; {read_fail($1).type == read_fail($2).type} ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; !{$0 == $1} ;; !{$0 == $2}
each check_gas() ;; {read_fail($1).type == read_fail($2).type} ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; !{$0 == $1} ;; !{$0 == $2}
each read_entry_fail(read_fail($2).address, idx(read_fail($2).size)) ;; {read_fail($1).type == read_fail($2).type} ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; !{$0 == $1} ;; !{$0 == $2}
each push_back(alloc(), read_entry_fail(read_fail($2).address, idx(read_fail($2).size))) ;; {read_fail($1).type == read_fail($2).type} ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; !{$0 == $1} ;; !{$0 == $2}
each write($0, ctor(vm::ref_t, alloc())) ;; {read_fail($1).type == read_fail($2).type} ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; !{$0 == $1} ;; !{$0 == $2}
raise !{read_fail($1).type == read_fail($2).type}
raise {read_fail($1).type == read_fail($2).type} ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; {$0 == $1} | {$0 == $2}
raise {read_fail($1).type == read_fail($2).type} ;; !{read_fail($1).type == vm::TYPE_STRING} ;; !{read_fail($1).type == vm::TYPE_BINARY} ;; !{read_fail($1).type == vm::TYPE_ARRAY}
exit {did read_fail($1)}
exit {did read_fail($2)}
exit {read_fail($1).type == read_fail($2).type}
exit !{read_fail($1).type == vm::TYPE_BINARY} | {did assign($0, unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type))}
exit !{read_fail($1).type == vm::TYPE_BINARY} | {did data(unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type), 0)}
exit !{read_fail($1).type == vm::TYPE_BINARY} | {did data(unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type), read_fail($1).size)}
exit !{read_fail($1).type == vm::TYPE_BINARY} | {did memcpy(data(unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type), 0), data(read_fail($1), 0), read_fail($1).size)}
exit !{read_fail($1).type == vm::TYPE_BINARY} | {did memcpy(data(unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type), read_fail($1).size), data(read_fail($2), 0), read_fail($2).size)}
exit !{read_fail($1).type == vm::TYPE_BINARY} | {did unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type).size = u32((read_fail($1).size + read_fail($2).size))}
exit !{read_fail($1).type == vm::TYPE_STRING} | {did assign($0, unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type))}
exit !{read_fail($1).type == vm::TYPE_STRING} | {did data(unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type), 0)}
exit !{read_fail($1).type == vm::TYPE_STRING} | {did data(unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type), read_fail($1).size)}
exit !{read_fail($1).type == vm::TYPE_STRING} | {did memcpy(data(unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type), 0), data(read_fail($1), 0), read_fail($1).size)}
exit !{read_fail($1).type == vm::TYPE_STRING} | {did memcpy(data(unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type), read_fail($1).size), data(read_fail($2), 0), read_fail($2).size)}
exit !{read_fail($1).type == vm::TYPE_STRING} | {did unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type).size = u32((read_fail($1).size + read_fail($2).size))}
exit !{$0 == $1} | {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
exit !{$0 == $2} | {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
exit {did alloc()} | {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
exit {did assign(alloc(), new(vm::array_t,default_delete<vm::array_t>))} | {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
exit {did push_back(alloc(), read_entry_fail(read_fail($1).address, idx(read_fail($1).size)))} | {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
exit {did push_back(alloc(), read_entry_fail(read_fail($2).address, idx(read_fail($2).size)))} | {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
exit {did read_entry_fail(read_fail($1).address, idx(read_fail($1).size))} | {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
exit {did read_entry_fail(read_fail($2).address, idx(read_fail($2).size))} | {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
exit {did write($0, ctor(vm::ref_t, alloc()))} | {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
exit {read_fail($1).type == vm::TYPE_ARRAY} | {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
at read_fail($1)
at read_fail($2)
at memcpy(data(unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type), 0), data(read_fail($1), 0), read_fail($1).size) ;; {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
at memcpy(data(unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type), read_fail($1).size), data(read_fail($2), 0), read_fail($2).size) ;; {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
at unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type).size = u32((read_fail($1).size + read_fail($2).size)) ;; {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
at assign($0, unsafe_alloc((read_fail($1).size + read_fail($2).size), read_fail($1).type)) ;; {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
at alloc() ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; !{$0 == $1} ;; !{$0 == $2}
at assign(alloc(), new(vm::array_t,default_delete<vm::array_t>)) ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; !{$0 == $1} ;; !{$0 == $2}
at read_entry_fail(read_fail($1).address, idx(read_fail($1).size)) ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; !{$0 == $1} ;; !{$0 == $2}
at push_back(alloc(), read_entry_fail(read_fail($1).address, idx(read_fail($1).size))) ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; !{$0 == $1} ;; !{$0 == $2}
at check_gas() ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; !{$0 == $1} ;; !{$0 == $2}
at read_entry_fail(read_fail($2).address, idx(read_fail($2).size)) ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; !{$0 == $1} ;; !{$0 == $2}
at push_back(alloc(), read_entry_fail(read_fail($2).address, idx(read_fail($2).size))) ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; !{$0 == $1} ;; !{$0 == $2}
at write($0, ctor(vm::ref_t, alloc())) ;; {read_fail($1).type == vm::TYPE_ARRAY} ;; !{$0 == $1} ;; !{$0 == $2}
fn mmx::vm::Engine::memcpy
each read_fail($1)
each data(unsafe_alloc($2, read_fail($1).type), 0) ;; {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING} ;; !{read_fail($1).size < $3} ;; !{(-$3 + read_fail($1).size) < $2}
each memcpy(data(unsafe_alloc($2, read_fail($1).type), 0), data(read_fail($1), $3), $2) ;; {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING} ;; !{read_fail($1).size < $3} ;; !{(-$3 + read_fail($1).size) < $2}
each unsafe_alloc($2, read_fail($1).type).size = u32($2) ;; {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING} ;; !{read_fail($1).size < $3} ;; !{(-$3 + read_fail($1).size) < $2}
each assign($0, unsafe_alloc($2, read_fail($1).type)) ;; {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING} ;; !{read_fail($1).size < $3} ;; !{(-$3 + read_fail($1).size) < $2}
raise {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING} ;; {(-$3 + read_fail($1).size) < $2} | {read_fail($1).size < $3}
raise !{read_fail($1).type == vm::TYPE_STRING} ;; !{read_fail($1).type == vm::TYPE_BINARY}
exit !{(-$3 + read_fail($1).size) < $2}
exit !{read_fail($1).size < $3}
exit {did assign($0, unsafe_alloc($2, read_fail($1).type))}
exit {did memcpy(data(unsafe_alloc($2, read_fail($1).type), 0), data(read_fail($1), $3), $2)}
exit {did read_fail($1)}
exit {did unsafe_alloc($2, read_fail($1).type).size = u32($2)}
exit {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
at read_fail($1)
at memcpy(data(unsafe_alloc($2, read_fail($1).type), 0), data(read_fail($1), $3), $2)
at unsafe_alloc($2, read_fail($1).type).size = u32($2)
at assign($0, unsafe_alloc($2, read_fail($1).type))
fn mmx::vm::Engine::sha256
each read_fail($1)
each @gas_used = ((((read_fail($1).size + 63) / 64) * SHA256_BLOCK_COST) + @gas_used) ;; {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
each check_gas() ;; {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
each write($0, ctor(vm::varptr_t, alloc(data(ctor(hash_t, data(read_fail($1), 0), read_fail($1).size)), size(ctor(hash_t, data(read_fail($1), 0), read_fail($1).size)), vm::TYPE_BINARY))) ;; {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
raise !{read_fail($1).type == vm::TYPE_STRING} ;; !{read_fail($1).type == vm::TYPE_BINARY}
exit {did @gas_used = ((((read_fail($1).size + 63) / 64) * SHA256_BLOCK_COST) + @gas_used)}
exit {did check_gas()}
exit {did read_fail($1)}
exit {did write($0, ctor(vm::varptr_t, alloc(data(ctor(hash_t, data(read_fail($1), 0), read_fail($1).size)), size(ctor(hash_t, data(read_fail($1), 0), read_fail($1).size)), vm::TYPE_BINARY)))}
exit {read_fail($1).type == vm::TYPE_BINARY} | {read_fail($1).type == vm::TYPE_STRING}
at read_fail($1)
at @gas_used = ((((read_fail($1).size + 63) / 64) * SHA256_BLOCK_COST) + @gas_used)
at check_gas()
at write($0, ctor(vm::varptr_t, alloc(data(ctor(hash_t, data(read_fail($1), 0), read_fail($1).size)), size(ctor(hash_t, data(read_fail($1), 0), read_fail($1).size)), vm::TYPE_BINARY)))
fn mmx::vm::Engine::verify
each @gas_used = (@gas_used + ECDSA_VERIFY_COST)
each check_gas()
each read_fail($3, vm::TYPE_BINARY)
each read_fail($2, vm::TYPE_BINARY)
each read_fail($1, vm::TYPE_BINARY)
each write($0, ctor(vm::var_t, {verify(ctor(signature_t, to_vector(read_fail($3, vm::TYPE_BINARY))), ctor(pubkey_t, to_vector(read_fail($2, vm::TYPE_BINARY))), from_bytes(to_vector(read_fail($1, vm::TYPE_BINARY))))}))
never throw …
exit {did @gas_used = (@gas_used + ECDSA_VERIFY_COST)}
exit {did check_gas()}
exit {did read_fail($1, vm::TYPE_BINARY)}
exit {did read_fail($2, vm::TYPE_BINARY)}
exit {did read_fail($3, vm::TYPE_BINARY)}
exit {did write($0, ctor(vm::var_t, {verify(ctor(signature_t, to_vector(read_fail($3, vm::TYPE_BINARY))), ctor(pubkey_t, to_vector(read_fail($2, vm::TYPE_BINARY))), from_bytes(to_vector(read_fail($1, vm::TYPE_BINARY))))}))}
at @gas_used = (@gas_used + ECDSA_VERIFY_COST)
at check_gas()
at read_fail($3, vm::TYPE_BINARY)
at read_fail($2, vm::TYPE_BINARY)
at read_fail($1, vm::TYPE_BINARY)
at write($0, ctor(vm::var_t, {verify(ctor(signature_t, to_vector(read_fail($3, vm::TYPE_BINARY))), ctor(pubkey_t, to_vector(read_fail($2, vm::TYPE_BINARY))), from_bytes(to_vector(read_fail($1, vm::TYPE_BINARY))))}))
fn mmx::vm::Engine::conv
never break(loop)
each read_fail($1)
each is_true(read_fail($1)) ;; {u8($2) == vm::CONVTYPE_BOOL}
each write($0, ctor(vm::var_t, {is_true(read_fail($1))})) ;; {u8($2) == vm::CONVTYPE_BOOL}
each write($0, ctor(vm::uint_t)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_NIL} ;; {u8($2) == vm::CONVTYPE_UINT}
each write($0, ctor(vm::varptr_t, to_binary(ctor(addr_t)))) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_NIL} ;; {u8($2) == vm::CONVTYPE_ADDRESS}
each write($0, ctor(vm::uint_t, 1)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_TRUE} ;; {u8($2) == vm::CONVTYPE_UINT}
each write($0, ctor(vm::uint_t)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_FALSE} ;; {u8($2) == vm::CONVTYPE_UINT}
each write($0, read_fail($1)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_UINT}
each @gas_used = (@gas_used + CONV_UINT_256_STRING_COST) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_STRING} ;; {(read_fail($1).value >> 128)}
each @gas_used = (@gas_used + CONV_UINT_128_STRING_COST) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_STRING} ;; !{(read_fail($1).value >> 128)} ;; {(read_fail($1).value >> 64)}
each @gas_used = (@gas_used + CONV_UINT_64_STRING_COST) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_STRING} ;; !{(read_fail($1).value >> 128)} ;; !{(read_fail($1).value >> 64)} ;; {(read_fail($1).value >> 32)}
each @gas_used = (@gas_used + CONV_UINT_32_STRING_COST) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_STRING} ;; !{(read_fail($1).value >> 128)} ;; !{(read_fail($1).value >> 64)} ;; !{(read_fail($1).value >> 32)}
each check_gas() ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_STRING}
each assign($0, alloc(str(read_fail($1).value, u8(ite((!{u8(($2 / 256)) == vm::CONVTYPE_BASE_10} && !{u8(($2 / 256)) == vm::CONVTYPE_DEFAULT}), ite({u8(($2 / 256)) == vm::CONVTYPE_BASE_2}, 2, ite({u8(($2 / 256)) == vm::CONVTYPE_BASE_8}, 8, 16)), 10)), 0), vm::TYPE_STRING)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_STRING}
each from_uint(%bytes_t<32>, read_fail($1).value, ({u8(($2 / 256)) == vm::CONVTYPE_BIG_ENDIAN} || {u8(($2 / 256)) == vm::CONVTYPE_DEFAULT})) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_BINARY}
each data(%bytes_t<32>) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_BINARY}
each assign($0, alloc(data(%bytes_t<32>), size(%bytes_t<32>), vm::TYPE_BINARY)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_BINARY}
each @gas_used = ((CONV_STRING_UINT_CHAR_COST * size(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos)))) + @gas_used) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_UINT}
each check_gas() ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_UINT}
each write($0, ctor(vm::uint_t, ctor(uint256_t, ctor(string, c_str(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos)))), u8(ite({u8($3) == vm::CONVTYPE_BASE_10}, 10, ite({u8($3) == vm::CONVTYPE_BASE_2}, 2, ite({u8($3) == vm::CONVTYPE_BASE_8}, 8, ite((!{"0x" == substr(to_string(read_fail($1)), 0, 2)} && {u8($3) == vm::CONVTYPE_DEFAULT}), ite({"0b" == substr(to_string(read_fail($1)), 0, 2)}, 2, 10), 16)))))))) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_UINT}
each write($0, read_fail($1)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_STRING}
each assign($0, alloc(read_fail($1), vm::TYPE_BINARY)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_BINARY} ;; {u8($3) == vm::CONVTYPE_DEFAULT}
each assign($0, alloc(data(from_hex_string(to_string(read_fail($1)))), size(from_hex_string(to_string(read_fail($1)))), vm::TYPE_BINARY)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_BINARY} ;; !{u8($3) == vm::CONVTYPE_DEFAULT} ;; !{(size(to_string(read_fail($1))) % 2)}
each @gas_used = (@gas_used + CONV_STRING_BECH32_COST) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_ADDRESS}
each check_gas() ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_ADDRESS}
each assign($0, alloc(data(ctor(addr_t, to_string(read_fail($1)))), size(ctor(addr_t, to_string(read_fail($1)))), vm::TYPE_BINARY)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_ADDRESS}
each data(%bytes_t<32>) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_UINT} ;; {32 == read_fail($1).size}
each memcpy(data(%bytes_t<32>), data(read_fail($1), 0), read_fail($1).size) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_UINT} ;; {32 == read_fail($1).size}
each write($0, ctor(vm::uint_t, to_uint(%bytes_t<32>, ({u8($3) == vm::CONVTYPE_BIG_ENDIAN} || {u8($3) == vm::CONVTYPE_DEFAULT})))) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_UINT} ;; {32 == read_fail($1).size}
each @gas_used = (@gas_used + CONV_BECH32_STRING_COST) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_STRING} ;; !{u8(($2 / 256)) == vm::CONVTYPE_BASE_16} ;; !{u8(($2 / 256)) == vm::CONVTYPE_DEFAULT}
each check_gas() ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_STRING} ;; !{u8(($2 / 256)) == vm::CONVTYPE_BASE_16} ;; !{u8(($2 / 256)) == vm::CONVTYPE_DEFAULT}
each assign($0, alloc(to_string(to_addr(read_fail($1))), vm::TYPE_STRING)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_STRING} ;; !{u8(($2 / 256)) == vm::CONVTYPE_BASE_16} ;; !{u8(($2 / 256)) == vm::CONVTYPE_DEFAULT}
each assign($0, alloc(to_hex_string(read_fail($1)), vm::TYPE_STRING)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_STRING} ;; {u8(($2 / 256)) == vm::CONVTYPE_BASE_16}
each assign($0, alloc(data(read_fail($1), 0), read_fail($1).size, vm::TYPE_STRING)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_STRING} ;; {u8(($2 / 256)) == vm::CONVTYPE_DEFAULT}
each write($0, read_fail($1)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_BINARY}
each write($0, read_fail($1)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_ADDRESS} ;; {32 == read_fail($1).size}
never break(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos)))
raise !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_NIL} ;; !{u8($2) == vm::CONVTYPE_UINT} ;; !{u8($2) == vm::CONVTYPE_ADDRESS}
raise !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_TRUE} ;; !{u8($2) == vm::CONVTYPE_UINT}
raise !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_FALSE} ;; !{u8($2) == vm::CONVTYPE_UINT}
raise !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_STRING} ;; !{u8(($2 / 256)) == vm::CONVTYPE_DEFAULT} ;; !{u8(($2 / 256)) == vm::CONVTYPE_BASE_2} ;; !{u8(($2 / 256)) == vm::CONVTYPE_BASE_8} ;; !{u8(($2 / 256)) == vm::CONVTYPE_BASE_10} ;; !{u8(($2 / 256)) == vm::CONVTYPE_BASE_16}
raise !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_STRING} ;; {(read_fail($1).value >> 128)} ;; !{u8(($2 / 256)) == vm::CONVTYPE_BASE_2} ;; !{u8(($2 / 256)) == vm::CONVTYPE_BASE_8} ;; {u8(($2 / 256)) == vm::CONVTYPE_BASE_10} | {u8(($2 / 256)) == vm::CONVTYPE_DEFAULT}
raise !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_BINARY} ;; !{u8(($2 / 256)) == vm::CONVTYPE_DEFAULT} ;; !{u8(($2 / 256)) == vm::CONVTYPE_BIG_ENDIAN} ;; !{u8(($2 / 256)) == vm::CONVTYPE_LITTLE_ENDIAN}
raise !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; !{u8($2) == vm::CONVTYPE_UINT} ;; !{u8($2) == vm::CONVTYPE_STRING} ;; !{u8($2) == vm::CONVTYPE_BINARY}
raise !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_UINT} ;; !{u8($3) == vm::CONVTYPE_DEFAULT} ;; !{u8($3) == vm::CONVTYPE_BASE_2} ;; !{u8($3) == vm::CONVTYPE_BASE_8} ;; !{u8($3) == vm::CONVTYPE_BASE_10} ;; !{u8($3) == vm::CONVTYPE_BASE_16}
raise !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_UINT} ;; !{-1 < ite((!{47 < elem(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos)))} || {57 < elem(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos)))}), ite((!{122 < elem(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos)))} && {96 < elem(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos)))}), (elem(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos))) + -87), ite((!{64 < elem(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos)))} || {90 < elem(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos)))}), -1, (elem(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos))) + -55))), (elem(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos))) + -48))} | !{ite((!{47 < elem(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos)))} || {57 < elem(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos)))}), ite((!{122 < elem(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos)))} && {96 < elem(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos)))}), (elem(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos))) + -87), ite((!{64 < elem(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos)))} || {90 < elem(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos)))}), -1, (elem(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos))) + -55))), (elem(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos))) + -48)) < ite({u8($3) == vm::CONVTYPE_BASE_10}, 10, ite({u8($3) == vm::CONVTYPE_BASE_2}, 2, ite({u8($3) == vm::CONVTYPE_BASE_8}, 8, ite((!{"0x" == substr(to_string(read_fail($1)), 0, 2)} && {u8($3) == vm::CONVTYPE_DEFAULT}), ite({"0b" == substr(to_string(read_fail($1)), 0, 2)}, 2, 10), 16))))}
raise !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_BINARY} ;; !{u8($3) == vm::CONVTYPE_DEFAULT} ;; !{u8($3) == vm::CONVTYPE_BASE_16}
raise !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_BINARY} ;; !{u8($3) == vm::CONVTYPE_DEFAULT} ;; {(size(to_string(read_fail($1))) % 2)}
raise !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_BINARY} ;; !{u8($3) == vm::CONVTYPE_DEFAULT} ;; !{(size(to_string(read_fail($1))) % 2)} ;; !{47 < at(to_string(read_fail($1)), …)} | {57 < at(to_string(read_fail($1)), …)} ;; !{96 < at(to_string(read_fail($1)), …)} | {102 < at(to_string(read_fail($1)), …)} ;; !{64 < at(to_string(read_fail($1)), …)} | {70 < at(to_string(read_fail($1)), …)}
raise !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; !{u8($2) == vm::CONVTYPE_UINT} ;; !{u8($2) == vm::CONVTYPE_STRING} ;; !{u8($2) == vm::CONVTYPE_BINARY} ;; !{u8($2) == vm::CONVTYPE_ADDRESS}
raise !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_UINT} ;; !{32 == read_fail($1).size}
raise !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_UINT} ;; {32 == read_fail($1).size} ;; !{u8($3) == vm::CONVTYPE_DEFAULT} ;; !{u8($3) == vm::CONVTYPE_BIG_ENDIAN} ;; !{u8($3) == vm::CONVTYPE_LITTLE_ENDIAN}
raise !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_STRING} ;; !{u8(($2 / 256)) == vm::CONVTYPE_DEFAULT} ;; !{u8(($2 / 256)) == vm::CONVTYPE_BASE_16} ;; !{u8(($2 / 256)) == vm::CONVTYPE_ADDRESS}
raise !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_ADDRESS} ;; !{32 == read_fail($1).size}
raise !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; !{u8($2) == vm::CONVTYPE_UINT} ;; !{u8($2) == vm::CONVTYPE_STRING} ;; !{u8($2) == vm::CONVTYPE_BINARY} ;; !{u8($2) == vm::CONVTYPE_ADDRESS}
raise !{u8($2) == vm::CONVTYPE_BOOL} ;; !{read_fail($1).type == vm::TYPE_NIL} ;; !{read_fail($1).type == vm::TYPE_TRUE} ;; !{read_fail($1).type == vm::TYPE_FALSE} ;; !{read_fail($1).type == vm::TYPE_UINT} ;; !{read_fail($1).type == vm::TYPE_STRING} ;; !{read_fail($1).type == vm::TYPE_BINARY}
exit {did read_fail($1)}
exit !{u8($2) == vm::CONVTYPE_BOOL} | {did is_true(read_fail($1))}
exit !{u8($2) == vm::CONVTYPE_BOOL} | {did write($0, ctor(vm::var_t, {is_true(read_fail($1))}))}
exit !{read_fail($1).type == vm::TYPE_NIL} | !{u8($2) == vm::CONVTYPE_UINT} | {did write($0, ctor(vm::uint_t))} | {u8($2) == vm::CONVTYPE_BOOL}
exit !{read_fail($1).type == vm::TYPE_NIL} | {did write($0, ctor(vm::varptr_t, to_binary(ctor(addr_t))))} | {u8($2) == vm::CONVTYPE_BOOL} | {u8($2) == vm::CONVTYPE_UINT}
exit !{read_fail($1).type == vm::TYPE_NIL} | {u8($2) == vm::CONVTYPE_ADDRESS} | {u8($2) == vm::CONVTYPE_BOOL} | {u8($2) == vm::CONVTYPE_UINT}
exit !{read_fail($1).type == vm::TYPE_TRUE} | {did write($0, ctor(vm::uint_t, 1))} | {read_fail($1).type == vm::TYPE_NIL} | {u8($2) == vm::CONVTYPE_BOOL}
exit !{read_fail($1).type == vm::TYPE_TRUE} | {read_fail($1).type == vm::TYPE_NIL} | {u8($2) == vm::CONVTYPE_BOOL} | {u8($2) == vm::CONVTYPE_UINT}
exit !{read_fail($1).type == vm::TYPE_FALSE} | {did write($0, ctor(vm::uint_t))} | {read_fail($1).type == vm::TYPE_NIL} | {read_fail($1).type == vm::TYPE_TRUE} | {u8($2) == vm::CONVTYPE_BOOL}
exit !{read_fail($1).type == vm::TYPE_FALSE} | {read_fail($1).type == vm::TYPE_NIL} | {read_fail($1).type == vm::TYPE_TRUE} | {u8($2) == vm::CONVTYPE_BOOL} | {u8($2) == vm::CONVTYPE_UINT}
at read_fail($1)
at is_true(read_fail($1)) ;; {u8($2) == vm::CONVTYPE_BOOL}
at write($0, ctor(vm::var_t, {is_true(read_fail($1))})) ;; {u8($2) == vm::CONVTYPE_BOOL}
at write($0, ctor(vm::uint_t)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {u8($2) == vm::CONVTYPE_UINT}
at write($0, ctor(vm::varptr_t, to_binary(ctor(addr_t)))) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_NIL} ;; {u8($2) == vm::CONVTYPE_ADDRESS}
at write($0, ctor(vm::uint_t, 1)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_TRUE} ;; {u8($2) == vm::CONVTYPE_UINT}
at write($0, read_fail($1)) ;; !{u8($2) == vm::CONVTYPE_BOOL}
at @gas_used = (@gas_used + CONV_UINT_256_STRING_COST) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_STRING} ;; {(read_fail($1).value >> 128)} ;; !{u8(($2 / 256)) == vm::CONVTYPE_BASE_10} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_2} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_8} ;; !{u8(($2 / 256)) == vm::CONVTYPE_DEFAULT} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_2} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_8} ;; {u8(($2 / 256)) == vm::CONVTYPE_BASE_10} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_16} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_2} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_8} | {u8(($2 / 256)) == vm::CONVTYPE_DEFAULT}
at @gas_used = (@gas_used + CONV_UINT_128_STRING_COST) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_STRING} ;; !{(read_fail($1).value >> 128)} ;; {(read_fail($1).value >> 64)} ;; {u8(($2 / 256)) == vm::CONVTYPE_BASE_10} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_16} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_2} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_8} | {u8(($2 / 256)) == vm::CONVTYPE_DEFAULT}
at @gas_used = (@gas_used + CONV_UINT_64_STRING_COST) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_STRING} ;; !{(read_fail($1).value >> 128)} ;; !{(read_fail($1).value >> 64)} ;; {(read_fail($1).value >> 32)} ;; {u8(($2 / 256)) == vm::CONVTYPE_BASE_10} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_16} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_2} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_8} | {u8(($2 / 256)) == vm::CONVTYPE_DEFAULT}
at @gas_used = (@gas_used + CONV_UINT_32_STRING_COST) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_STRING} ;; !{(read_fail($1).value >> 128)} ;; !{(read_fail($1).value >> 64)} ;; !{(read_fail($1).value >> 32)} ;; {u8(($2 / 256)) == vm::CONVTYPE_BASE_10} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_16} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_2} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_8} | {u8(($2 / 256)) == vm::CONVTYPE_DEFAULT}
at check_gas() ;; !{u8($2) == vm::CONVTYPE_BOOL}
at assign($0, alloc(str(read_fail($1).value, u8(ite((!{u8(($2 / 256)) == vm::CONVTYPE_BASE_10} && !{u8(($2 / 256)) == vm::CONVTYPE_DEFAULT}), ite({u8(($2 / 256)) == vm::CONVTYPE_BASE_2}, 2, ite({u8(($2 / 256)) == vm::CONVTYPE_BASE_8}, 8, 16)), 10)), 0), vm::TYPE_STRING)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_STRING} ;; !{(read_fail($1).value >> 128)} | !{u8(($2 / 256)) == vm::CONVTYPE_BASE_10} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_2} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_8} ;; !{(read_fail($1).value >> 128)} | !{u8(($2 / 256)) == vm::CONVTYPE_DEFAULT} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_2} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_8} ;; {u8(($2 / 256)) == vm::CONVTYPE_BASE_10} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_16} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_2} | {u8(($2 / 256)) == vm::CONVTYPE_BASE_8} | {u8(($2 / 256)) == vm::CONVTYPE_DEFAULT}
at from_uint(%bytes_t<32>, read_fail($1).value, ({u8(($2 / 256)) == vm::CONVTYPE_BIG_ENDIAN} || {u8(($2 / 256)) == vm::CONVTYPE_DEFAULT})) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_BINARY} ;; {u8(($2 / 256)) == vm::CONVTYPE_BIG_ENDIAN} | {u8(($2 / 256)) == vm::CONVTYPE_DEFAULT} | {u8(($2 / 256)) == vm::CONVTYPE_LITTLE_ENDIAN}
at assign($0, alloc(data(%bytes_t<32>), size(%bytes_t<32>), vm::TYPE_BINARY)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_UINT} ;; {u8($2) == vm::CONVTYPE_BINARY} ;; {u8(($2 / 256)) == vm::CONVTYPE_BIG_ENDIAN} | {u8(($2 / 256)) == vm::CONVTYPE_DEFAULT} | {u8(($2 / 256)) == vm::CONVTYPE_LITTLE_ENDIAN}
at @gas_used = ((CONV_STRING_UINT_CHAR_COST * size(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos)))) + @gas_used) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_UINT} ;; {u8($3) == vm::CONVTYPE_BASE_10} | {u8($3) == vm::CONVTYPE_BASE_16} | {u8($3) == vm::CONVTYPE_BASE_2} | {u8($3) == vm::CONVTYPE_BASE_8} | {u8($3) == vm::CONVTYPE_DEFAULT}
at write($0, ctor(vm::uint_t, ctor(uint256_t, ctor(string, c_str(ite((!{"0b" == substr(to_string(read_fail($1)), 0, 2)} && !{"0x" == substr(to_string(read_fail($1)), 0, 2)}), to_string(read_fail($1)), substr(to_string(read_fail($1)), 2, npos)))), u8(ite({u8($3) == vm::CONVTYPE_BASE_10}, 10, ite({u8($3) == vm::CONVTYPE_BASE_2}, 2, ite({u8($3) == vm::CONVTYPE_BASE_8}, 8, ite((!{"0x" == substr(to_string(read_fail($1)), 0, 2)} && {u8($3) == vm::CONVTYPE_DEFAULT}), ite({"0b" == substr(to_string(read_fail($1)), 0, 2)}, 2, 10), 16)))))))) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_UINT} ;; {u8($3) == vm::CONVTYPE_BASE_10} | {u8($3) == vm::CONVTYPE_BASE_16} | {u8($3) == vm::CONVTYPE_BASE_2} | {u8($3) == vm::CONVTYPE_BASE_8} | {u8($3) == vm::CONVTYPE_DEFAULT}
at assign($0, alloc(read_fail($1), vm::TYPE_BINARY)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_BINARY} ;; {u8($3) == vm::CONVTYPE_DEFAULT} ;; !{u8($3) == vm::CONVTYPE_BASE_16}
at assign($0, alloc(data(from_hex_string(to_string(read_fail($1)))), size(from_hex_string(to_string(read_fail($1)))), vm::TYPE_BINARY)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_BINARY} ;; !{u8($3) == vm::CONVTYPE_DEFAULT} ;; !{(size(to_string(read_fail($1))) % 2)} ;; {u8($3) == vm::CONVTYPE_BASE_16}
at @gas_used = (@gas_used + CONV_STRING_BECH32_COST) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_ADDRESS}
at assign($0, alloc(data(ctor(addr_t, to_string(read_fail($1)))), size(ctor(addr_t, to_string(read_fail($1)))), vm::TYPE_BINARY)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_STRING} ;; {u8($2) == vm::CONVTYPE_ADDRESS}
at memcpy(data(%bytes_t<32>), data(read_fail($1), 0), read_fail($1).size) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_UINT} ;; {32 == read_fail($1).size} ;; {u8($3) == vm::CONVTYPE_BIG_ENDIAN} | {u8($3) == vm::CONVTYPE_DEFAULT} | {u8($3) == vm::CONVTYPE_LITTLE_ENDIAN}
at write($0, ctor(vm::uint_t, to_uint(%bytes_t<32>, ({u8($3) == vm::CONVTYPE_BIG_ENDIAN} || {u8($3) == vm::CONVTYPE_DEFAULT})))) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_UINT} ;; {32 == read_fail($1).size} ;; {u8($3) == vm::CONVTYPE_BIG_ENDIAN} | {u8($3) == vm::CONVTYPE_DEFAULT} | {u8($3) == vm::CONVTYPE_LITTLE_ENDIAN}
at @gas_used = (@gas_used + CONV_BECH32_STRING_COST) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_STRING} ;; !{u8(($2 / 256)) == vm::CONVTYPE_BASE_16} ;; !{u8(($2 / 256)) == vm::CONVTYPE_DEFAULT} ;; {u8(($2 / 256)) == vm::CONVTYPE_ADDRESS}
at assign($0, alloc(to_string(to_addr(read_fail($1))), vm::TYPE_STRING)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_STRING} ;; !{u8(($2 / 256)) == vm::CONVTYPE_BASE_16} ;; !{u8(($2 / 256)) == vm::CONVTYPE_DEFAULT} ;; {u8(($2 / 256)) == vm::CONVTYPE_ADDRESS}
at assign($0, alloc(to_hex_string(read_fail($1)), vm::TYPE_STRING)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_STRING} ;; {u8(($2 / 256)) == vm::CONVTYPE_BASE_16} ;; !{u8(($2 / 256)) == vm::CONVTYPE_ADDRESS} ;; !{u8(($2 / 256)) == vm::CONVTYPE_DEFAULT}
at assign($0, alloc(data(read_fail($1), 0), read_fail($1).size, vm::TYPE_STRING)) ;; !{u8($2) == vm::CONVTYPE_BOOL} ;; {read_fail($1).type == vm::TYPE_BINARY} ;; {u8($2) == vm::CONVTYPE_STRING} ;; {u8(($2 / 256)) == vm::CONVTYPE_DEFAULT} ;; !{u8(($2 / 256)) == vm::CONVTYPE_ADDRESS} ;; !{u8(($2 / 256)) == vm::CONVTYPE_BASE_16}
fn mmx::vm::Engine::log
each read_fail($1, vm::TYPE_STRING) ;; {@log_func}
each @log_func(u32($0), to_string(read_fail($1, vm::TYPE_STRING))) ;; {@log_func}
never throw …
exit !{@log_func} | {did read_fail($1, vm::TYPE_STRING)}
at read_fail($1, vm::TYPE_STRING) ;; {@log_func}
at @log_func(u32($0), to_string(read_fail($1, vm::TYPE_STRING))) ;; {@log_func}
fn mmx::vm::Engine::event
each read_fail($0, vm::TYPE_STRING) ;; {@event_func}
each @event_func(to_string(read_fail($0, vm::TYPE_STRING)), $1) ;; {@event_func}
never throw …
exit !{@event_func} | {did read_fail($0, vm::TYPE_STRING)}
at read_fail($0, vm::TYPE_STRING) ;; {@event_func}
at @event_func(to_string(read_fail($0, vm::TYPE_STRING)), $1) ;; {@event_func}
fn mmx::vm::Engine::parse_memo
each read_fail($0)
raise {read_fail($0).type == vm::TYPE_STRING} ;; {MAX_MEMO_SIZE < size(to_string(read_fail($0)))}
raise !{read_fail($0).type == vm::TYPE_NIL} ;; !{read_fail($0).type == vm::TYPE_STRING}
exit {did read_fail($0)}
exit !{empty(to_string(read_fail($0)))} | {ret = 0}
exit !{read_fail($0).type == vm::TYPE_NIL} | {ret = 0}
exit {empty(to_string(read_fail($0)))} | {read_fail($0).type == vm::TYPE_NIL} | {ret = to_string(read_fail($0))}
exit {read_fail($0).type == vm::TYPE_NIL} | {read_fail($0).type == vm::TYPE_STRING}
at read_fail($0)
fn mmx::vm::Engine::send
each read_fail($1, vm::TYPE_UINT)
each get_balance($2) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2}
each get_balance($2) = (-read_fail($1, vm::TYPE_UINT).value + get_balance($2)) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2} ;; !{get_balance($2) < read_fail($1, vm::TYPE_UINT).value}
each read_fail($2, vm::TYPE_BINARY) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2} ;; !{get_balance($2) < read_fail($1, vm::TYPE_UINT).value}
each %txout_t.contract = to_addr(read_fail($2, vm::TYPE_BINARY)) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2} ;; !{get_balance($2) < read_fail($1, vm::TYPE_UINT).value}
each read_fail($0, vm::TYPE_BINARY) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2} ;; !{get_balance($2) < read_fail($1, vm::TYPE_UINT).value}
each %txout_t.address = to_addr(read_fail($0, vm::TYPE_BINARY)) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2} ;; !{get_balance($2) < read_fail($1, vm::TYPE_UINT).value}
each %txout_t.amount = read_fail($1, vm::TYPE_UINT).value ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2} ;; !{get_balance($2) < read_fail($1, vm::TYPE_UINT).value}
each parse_memo($3) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2} ;; !{get_balance($2) < read_fail($1, vm::TYPE_UINT).value}
each %txout_t.memo = parse_memo($3) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2} ;; !{get_balance($2) < read_fail($1, vm::TYPE_UINT).value}
each push_back(@outputs, %txout_t) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2} ;; !{get_balance($2) < read_fail($1, vm::TYPE_UINT).value}
raise {read_fail($1, vm::TYPE_UINT).value} ;; {(read_fail($1, vm::TYPE_UINT).value >> 128)}
raise {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; !{$2}
raise {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2} ;; {get_balance($2) < read_fail($1, vm::TYPE_UINT).value}
exit {did read_fail($1, vm::TYPE_UINT)}
exit !{(read_fail($1, vm::TYPE_UINT).value >> 128)} | !{read_fail($1, vm::TYPE_UINT).value}
exit !{get_balance($2) < read_fail($1, vm::TYPE_UINT).value} | !{read_fail($1, vm::TYPE_UINT).value}
exit !{read_fail($1, vm::TYPE_UINT).value} | {$2}
exit !{read_fail($1, vm::TYPE_UINT).value} | {did %txout_t.address = to_addr(read_fail($0, vm::TYPE_BINARY))}
exit !{read_fail($1, vm::TYPE_UINT).value} | {did %txout_t.amount = read_fail($1, vm::TYPE_UINT).value}
exit !{read_fail($1, vm::TYPE_UINT).value} | {did %txout_t.contract = to_addr(read_fail($2, vm::TYPE_BINARY))}
exit !{read_fail($1, vm::TYPE_UINT).value} | {did %txout_t.memo = parse_memo($3)}
exit !{read_fail($1, vm::TYPE_UINT).value} | {did get_balance($2) = (-read_fail($1, vm::TYPE_UINT).value + get_balance($2))}
exit !{read_fail($1, vm::TYPE_UINT).value} | {did get_balance($2)}
exit !{read_fail($1, vm::TYPE_UINT).value} | {did parse_memo($3)}
exit !{read_fail($1, vm::TYPE_UINT).value} | {did push_back(@outputs, %txout_t)}
exit !{read_fail($1, vm::TYPE_UINT).value} | {did read_fail($0, vm::TYPE_BINARY)}
exit !{read_fail($1, vm::TYPE_UINT).value} | {did read_fail($2, vm::TYPE_BINARY)}
at read_fail($1, vm::TYPE_UINT)
at get_balance($2) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2}
at get_balance($2) = (-read_fail($1, vm::TYPE_UINT).value + get_balance($2)) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2} ;; !{get_balance($2) < read_fail($1, vm::TYPE_UINT).value}
at read_fail($2, vm::TYPE_BINARY) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2} ;; !{get_balance($2) < read_fail($1, vm::TYPE_UINT).value}
at %txout_t.contract = to_addr(read_fail($2, vm::TYPE_BINARY)) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2} ;; !{get_balance($2) < read_fail($1, vm::TYPE_UINT).value}
at read_fail($0, vm::TYPE_BINARY) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2} ;; !{get_balance($2) < read_fail($1, vm::TYPE_UINT).value}
at %txout_t.address = to_addr(read_fail($0, vm::TYPE_BINARY)) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2} ;; !{get_balance($2) < read_fail($1, vm::TYPE_UINT).value}
at %txout_t.amount = read_fail($1, vm::TYPE_UINT).value ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2} ;; !{get_balance($2) < read_fail($1, vm::TYPE_UINT).value}
at parse_memo($3) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2} ;; !{get_balance($2) < read_fail($1, vm::TYPE_UINT).value}
at %txout_t.memo = parse_memo($3) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2} ;; !{get_balance($2) < read_fail($1, vm::TYPE_UINT).value}
at push_back(@outputs, %txout_t) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 128)} ;; {$2} ;; !{get_balance($2) < read_fail($1, vm::TYPE_UINT).value}
fn mmx::vm::Engine::mint
each read_fail($1, vm::TYPE_UINT)
each %txout_t.contract = @contract ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 80)}
each read_fail($0, vm::TYPE_BINARY) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 80)}
each %txout_t.address = to_addr(read_fail($0, vm::TYPE_BINARY)) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 80)}
each %txout_t.amount = read_fail($1, vm::TYPE_UINT).value ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 80)}
each parse_memo($2) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 80)}
each %txout_t.memo = parse_memo($2) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 80)}
each push_back(@mint_outputs, %txout_t) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 80)}
raise {read_fail($1, vm::TYPE_UINT).value} ;; {(read_fail($1, vm::TYPE_UINT).value >> 80)}
exit {did read_fail($1, vm::TYPE_UINT)}
exit !{(read_fail($1, vm::TYPE_UINT).value >> 80)} | !{read_fail($1, vm::TYPE_UINT).value}
exit !{read_fail($1, vm::TYPE_UINT).value} | {did %txout_t.address = to_addr(read_fail($0, vm::TYPE_BINARY))}
exit !{read_fail($1, vm::TYPE_UINT).value} | {did %txout_t.amount = read_fail($1, vm::TYPE_UINT).value}
exit !{read_fail($1, vm::TYPE_UINT).value} | {did %txout_t.contract = @contract}
exit !{read_fail($1, vm::TYPE_UINT).value} | {did %txout_t.memo = parse_memo($2)}
exit !{read_fail($1, vm::TYPE_UINT).value} | {did parse_memo($2)}
exit !{read_fail($1, vm::TYPE_UINT).value} | {did push_back(@mint_outputs, %txout_t)}
exit !{read_fail($1, vm::TYPE_UINT).value} | {did read_fail($0, vm::TYPE_BINARY)}
at read_fail($1, vm::TYPE_UINT)
at %txout_t.contract = @contract ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 80)}
at read_fail($0, vm::TYPE_BINARY) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 80)}
at %txout_t.address = to_addr(read_fail($0, vm::TYPE_BINARY)) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 80)}
at %txout_t.amount = read_fail($1, vm::TYPE_UINT).value ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 80)}
at parse_memo($2) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 80)}
at %txout_t.memo = parse_memo($2) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 80)}
at push_back(@mint_outputs, %txout_t) ;; {read_fail($1, vm::TYPE_UINT).value} ;; !{(read_fail($1, vm::TYPE_UINT).value >> 80)}
fn mmx::vm::Engine::rcall
each @gas_used = (@gas_used + INSTR_CALL_COST) ;; {$2 < STACK_SIZE} ;; {size(@call_stack) < MAX_CALL_RECURSION} ;; !{4096 < $3} ;; {@remote_call}
each get_frame() ;; {$2 < STACK_SIZE} ;; {size(@call_stack) < MAX_CALL_RECURSION} ;; !{4096 < $3} ;; {@remote_call}
each get_frame().stack_ptr = ($2 + get_frame().stack_ptr) ;; {$2 < STACK_SIZE} ;; {size(@call_stack) < MAX_CALL_RECURSION} ;; !{4096 < $3} ;; {@remote_call}
each push_back(@call_stack, get_frame()) ;; {$2 < STACK_SIZE} ;; {size(@call_stack) < MAX_CALL_RECURSION} ;; !{4096 < $3} ;; {@remote_call}
each read_fail($0, vm::TYPE_STRING) ;; {$2 < STACK_SIZE} ;; {size(@call_stack) < MAX_CALL_RECURSION} ;; !{4096 < $3} ;; {@remote_call}
each read_fail($1, vm::TYPE_STRING) ;; {$2 < STACK_SIZE} ;; {size(@call_stack) < MAX_CALL_RECURSION} ;; !{4096 < $3} ;; {@remote_call}
each @remote_call(to_string(read_fail($0, vm::TYPE_STRING)), to_string(read_fail($1, vm::TYPE_STRING)), u32($3)) ;; {$2 < STACK_SIZE} ;; {size(@call_stack) < MAX_CALL_RECURSION} ;; !{4096 < $3} ;; {@remote_call}
each ret() ;; {$2 < STACK_SIZE} ;; {size(@call_stack) < MAX_CALL_RECURSION} ;; !{4096 < $3} ;; {@remote_call}
raise !{$2 < STACK_SIZE}
raise {$2 < STACK_SIZE} ;; !{size(@call_stack) < MAX_CALL_RECURSION}
raise {$2 < STACK_SIZE} ;; {size(@call_stack) < MAX_CALL_RECURSION} ;; {4096 < $3}
raise {$2 < STACK_SIZE} ;; {size(@call_stack) < MAX_CALL_RECURSION} ;; !{4096 < $3} ;; !{@remote_call}
exit !{4096 < $3}
exit {$2 < STACK_SIZE}
exit {@remote_call}
exit {did @gas_used = (@gas_used + INSTR_CALL_COST)}
exit {did get_frame().stack_ptr = ($2 + get_frame().stack_ptr)}
exit {did get_frame()}
exit {did push_back(@call_stack, get_frame())}
exit {did read_fail($0, vm::TYPE_STRING)}
exit {did read_fail($1, vm::TYPE_STRING)}
exit {did ret()}
exit {size(@call_stack) < MAX_CALL_RECURSION}
at @gas_used = (@gas_used + INSTR_CALL_COST)
at get_frame()
at get_frame().stack_ptr = ($2 + get_frame().stack_ptr)
at push_back(@call_stack, get_frame())
at read_fail($0, vm::TYPE_STRING)
at read_fail($1, vm::TYPE_STRING)
at @remote_call(to_string(read_fail($0, vm::TYPE_STRING)), to_string(read_fail($1, vm::TYPE_STRING)), u32($3))
at ret()
fn mmx::vm::Engine::cread
each read_fail($1, vm::TYPE_BINARY) ;; {@read_contract}
each read_fail($2, vm::TYPE_STRING) ;; {@read_contract}
each @read_contract(to_addr(read_fail($1, vm::TYPE_BINARY)), to_string(read_fail($2, vm::TYPE_STRING)), $0) ;; {@read_contract}
raise !{@read_contract}
exit {@read_contract}
exit {did read_fail($1, vm::TYPE_BINARY)}
exit {did read_fail($2, vm::TYPE_STRING)}
at read_fail($1, vm::TYPE_BINARY)
at read_fail($2, vm::TYPE_STRING)
at @read_contract(to_addr(read_fail($1, vm::TYPE_BINARY)), to_string(read_fail($2, vm::TYPE_STRING)), $0)
fn mmx::vm::Engine::get_balance
each read_fail($0, vm::TYPE_BINARY)
each @gas_used = (@gas_used + WRITE_COST) ;; !{has(@balance_map, to_addr(read_fail($0, vm::TYPE_BINARY)))}
each get_balance(@storage, @contract, to_addr(read_fail($0, vm::TYPE_BINARY))) ;; !{has(@balance_map, to_addr(read_fail($0, vm::TYPE_BINARY)))}
each at(@balance_map, to_addr(read_fail($0, vm::TYPE_BINARY))) = ite({get_balance(@storage, @contract, to_addr(read_fail($0, vm::TYPE_BINARY)))}, get_balance(@storage, @contract, to_addr(read_fail($0, vm::TYPE_BINARY))), uint128_0) ;; !{has(@balance_map, to_addr(read_fail($0, vm::TYPE_BINARY)))}
never throw …
exit {did read_fail($0, vm::TYPE_BINARY)}
exit !{get_balance(@storage, @contract, to_addr(read_fail($0, vm::TYPE_BINARY)))} | {has(@balance_map, to_addr(read_fail($0, vm::TYPE_BINARY)))} | {ret = get_balance(@storage, @contract, to_addr(read_fail($0, vm::TYPE_BINARY)))}
exit !{has(@balance_map, to_addr(read_fail($0, vm::TYPE_BINARY)))} | {ret = at(@balance_map, to_addr(read_fail($0, vm::TYPE_BINARY)))}
exit {get_balance(@storage, @contract, to_addr(read_fail($0, vm::TYPE_BINARY)))} | {has(@balance_map, to_addr(read_fail($0, vm::TYPE_BINARY)))} | {ret = uint128_0}
exit {did @gas_used = (@gas_used + WRITE_COST)} | {has(@balance_map, to_addr(read_fail($0, vm::TYPE_BINARY)))}
exit {did at(@balance_map, to_addr(read_fail($0, vm::TYPE_BINARY))) = ite({get_balance(@storage, @contract, to_addr(read_fail($0, vm::TYPE_BINARY)))}, get_balance(@storage, @contract, to_addr(read_fail($0, vm::TYPE_BINARY))), uint128_0)} | {has(@balance_map, to_addr(read_fail($0, vm::TYPE_BINARY)))}
exit {did get_balance(@storage, @contract, to_addr(read_fail($0, vm::TYPE_BINARY)))} | {has(@balance_map, to_addr(read_fail($0, vm::TYPE_BINARY)))}
at read_fail($0, vm::TYPE_BINARY)
at @gas_used = (@gas_used + WRITE_COST) ;; !{has(@balance_map, to_addr(read_fail($0, vm::TYPE_BINARY)))}
at get_balance(@storage, @contract, to_addr(read_fail($0, vm::TYPE_BINARY))) ;; !{has(@balance_map, to_addr(read_fail($0, vm::TYPE_BINARY)))}
at at(@balance_map, to_addr(read_fail($0, vm::TYPE_BINARY))) = ite({get_balance(@storage, @contract, to_addr(read_fail($0, vm::TYPE_BINARY)))}, get_balance(@storage, @contract, to_addr(read_fail($0, vm::TYPE_BINARY))), uint128_0) ;; !{has(@balance_map, to_addr(read_fail($0, vm::TYPE_BINARY)))}
fn mmx::vm::Engine::read_balance
each get_balance($1)
each write($0, ctor(vm::uint_t, get_balance($1)))
never throw …
exit {did get_balance($1)}
exit {did write($0, ctor(vm::uint_t, get_balance($1)))}
at get_balance($1)
at write($0, ctor(vm::uint_t, get_balance($1)))
fn mmx::vm::Engine::jump
each get_frame()
each get_frame().instr_ptr = $0
never throw …
exit {did get_frame().instr_ptr = $0}
exit {did get_frame()}
at get_frame()
at get_frame().instr_ptr = $0
fn mmx::vm::Engine::call
each @gas_used = (@gas_used + INSTR_CALL_COST) ;; {$1 < STACK_SIZE} ;; {size(@call_stack) < MAX_CALL_RECURSION}
each get_frame() ;; {$1 < STACK_SIZE} ;; {size(@call_stack) < MAX_CALL_RECURSION}
each get_frame().instr_ptr = $0 ;; {$1 < STACK_SIZE} ;; {size(@call_stack) < MAX_CALL_RECURSION}
each get_frame().stack_ptr = ($1 + get_frame().stack_ptr) ;; {$1 < STACK_SIZE} ;; {size(@call_stack) < MAX_CALL_RECURSION}
each push_back(@call_stack, get_frame()) ;; {$1 < STACK_SIZE} ;; {size(@call_stack) < MAX_CALL_RECURSION}
raise !{$1 < STACK_SIZE}
raise {$1 < STACK_SIZE} ;; !{size(@call_stack) < MAX_CALL_RECURSION}
exit {$1 < STACK_SIZE}
exit {did @gas_used = (@gas_used + INSTR_CALL_COST)}
exit {did get_frame().instr_ptr = $0}
exit {did get_frame().stack_ptr = ($1 + get_frame().stack_ptr)}
exit {did get_frame()}
exit {did push_back(@call_stack, get_frame())}
exit {size(@call_stack) < MAX_CALL_RECURSION}
at @gas_used = (@gas_used + INSTR_CALL_COST)
at get_frame()
at get_frame().instr_ptr = $0
at get_frame().stack_ptr = ($1 + get_frame().stack_ptr)
at push_back(@call_stack, get_frame())
fn mmx::vm::Engine::ret
each get_frame()
each clear_stack((get_frame().stack_ptr + 1))
each pop_back(@call_stack)
never throw …
exit {did clear_stack((get_frame().stack_ptr + 1))}
exit {did get_frame()}
exit {did pop_back(@call_stack)}
true {empty(@call_stack)}
false !{empty(@call_stack)}
at get_frame()
at clear_stack((get_frame().stack_ptr + 1))
at pop_back(@call_stack)
fn mmx::vm::Engine::get_stack_ptr
each get_frame()
never throw …
exit {did get_frame()}
exit {ret = (MEM_STACK + get_frame().stack_ptr)}
at get_frame()
fn mmx::vm::Engine::deref
each read_fail($0)
never throw …
exit {did read_fail($0)}
exit !{read_fail($0).type == vm::TYPE_REF} | {ret = read_fail($0).address}
exit {read_fail($0).type == vm::TYPE_REF} | {ret = $0}
at read_fail($0)
fn mmx::vm::Engine::deref_addr
each get_frame() ;; !{$0 < MEM_STACK} ;; {$0 < MEM_STATIC}
each deref(ite((!{$0 < MEM_STACK} && {$0 < MEM_STATIC}), u32(($0 + get_frame().stack_ptr)), $0)) ;; {$1}
raise !{$0 < MEM_STACK} ;; {$0 < MEM_STATIC} ;; !{($0 + get_frame().stack_ptr) < MEM_STATIC}
exit !{$1} | {ret = deref(ite((!{$0 < MEM_STACK} && {$0 < MEM_STATIC}), u32(($0 + get_frame().stack_ptr)), $0))}
exit {$1} | {$0 < MEM_STACK} | !{$0 < MEM_STATIC} | {ret = u32(($0 + get_frame().stack_ptr))}
exit {$1} | !{$0 < MEM_STACK} | {ret = $0}
exit {$1} | {$0 < MEM_STATIC} | {ret = $0}
exit !{$1} | {did deref(ite((!{$0 < MEM_STACK} && {$0 < MEM_STATIC}), u32(($0 + get_frame().stack_ptr)), $0))}
exit !{$0 < MEM_STATIC} | {$0 < MEM_STACK} | {($0 + get_frame().stack_ptr) < MEM_STATIC}
exit !{$0 < MEM_STATIC} | {$0 < MEM_STACK} | {did get_frame()}
at get_frame() ;; !{$0 < MEM_STACK} ;; {$0 < MEM_STATIC}
at deref(ite((!{$0 < MEM_STACK} && {$0 < MEM_STATIC}), u32(($0 + get_frame().stack_ptr)), $0)) ;; {$1}
fn mmx::vm::Engine::deref_value
each deref_addr($0, false) ;; {$1}
each read_fail(deref_addr($0, false), vm::TYPE_UINT) ;; {$1}
never throw …
exit !{$1} | {ret = read_fail(deref_addr($0, false), vm::TYPE_UINT).value}
exit {$1} | {ret = $0}
exit !{$1} | {did deref_addr($0, false)}
exit !{$1} | {did read_fail(deref_addr($0, false), vm::TYPE_UINT)}
at deref_addr($0, false) ;; {$1}
at read_fail(deref_addr($0, false), vm::TYPE_UINT) ;; {$1}
fn mmx::vm::Engine::exec
never break(loop)
each @gas_used = (@gas_used + INSTR_COST)
each erase($0.a) ;; {$0.code == vm::OP_CLR} ;; !{($0.flags & OPFLAG_REF_A)}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_COPY}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_COPY}
each copy(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_COPY}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_CLONE}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_CLONE}
each clone(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_CLONE}
each deref_value($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_JUMP}
each jump(deref_value($0.a, ($0.flags & OPFLAG_REF_A))) ;; {$0.code == vm::OP_JUMP}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_JUMPI}
each is_true(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_JUMPI}
each deref_value($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_JUMPI} ;; {is_true(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))}
each jump(deref_value($0.a, ($0.flags & OPFLAG_REF_A))) ;; {$0.code == vm::OP_JUMPI} ;; {is_true(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_JUMPN}
each is_true(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_JUMPN}
each deref_value($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_JUMPN} ;; !{is_true(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))}
each jump(deref_value($0.a, ($0.flags & OPFLAG_REF_A))) ;; {$0.code == vm::OP_JUMPN} ;; !{is_true(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))}
each deref_value($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_CALL} ;; !{($0.flags & OPFLAG_REF_B)}
each deref_value($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_CALL} ;; !{($0.flags & OPFLAG_REF_B)}
each call(deref_value($0.a, ($0.flags & OPFLAG_REF_A)), deref_value($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_CALL} ;; !{($0.flags & OPFLAG_REF_B)}
each ret() ;; {$0.code == vm::OP_RET}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_ADD}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_ADD}
each deref_addr($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_ADD}
each read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT) ;; {$0.code == vm::OP_ADD}
each read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT) ;; {$0.code == vm::OP_ADD}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, (read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value + read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value))) ;; {$0.code == vm::OP_ADD} ;; !{($0.flags & OPFLAG_CATCH_OVERFLOW)} | !{(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value + read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value) < read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_SUB}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_SUB}
each deref_addr($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_SUB}
each read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT) ;; {$0.code == vm::OP_SUB}
each read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT) ;; {$0.code == vm::OP_SUB}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, (-read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value + read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value))) ;; {$0.code == vm::OP_SUB} ;; !{($0.flags & OPFLAG_CATCH_OVERFLOW)} | !{read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value < (-read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value + read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value)}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_MUL}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_MUL}
each deref_addr($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_MUL}
each read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT) ;; {$0.code == vm::OP_MUL}
each read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT) ;; {$0.code == vm::OP_MUL}
each @gas_used = (@gas_used + INSTR_COST + INSTR_MUL_256_COST) ;; {$0.code == vm::OP_MUL} ;; {(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value >> 64)} | {(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value >> 64)}
each @gas_used = (@gas_used + INSTR_COST + INSTR_MUL_128_COST) ;; {$0.code == vm::OP_MUL} ;; !{(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value >> 64)} ;; !{(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value >> 64)}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, wide256((read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value * read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value)))) ;; {$0.code == vm::OP_MUL}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_DIV}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_DIV}
each deref_addr($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_DIV}
each read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT) ;; {$0.code == vm::OP_DIV}
each read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT) ;; {$0.code == vm::OP_DIV}
each @gas_used = (@gas_used + INSTR_COST + INSTR_DIV_256_COST) ;; {$0.code == vm::OP_DIV} ;; !{read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value == uint256_0} ;; {upper(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value)}
each @gas_used = (@gas_used + INSTR_COST + INSTR_DIV_128_COST) ;; {$0.code == vm::OP_DIV} ;; !{read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value == uint256_0} ;; !{upper(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value)} ;; {upper(lower(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value))}
each @gas_used = (@gas_used + INSTR_COST + INSTR_DIV_64_COST) ;; {$0.code == vm::OP_DIV} ;; !{read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value == uint256_0} ;; !{upper(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value)} ;; !{upper(lower(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value))}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, (read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value / read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value))) ;; {$0.code == vm::OP_DIV} ;; !{read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value == uint256_0}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_MOD}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_MOD}
each deref_addr($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_MOD}
each read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT) ;; {$0.code == vm::OP_MOD}
each read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT) ;; {$0.code == vm::OP_MOD}
each @gas_used = (@gas_used + INSTR_COST + INSTR_DIV_256_COST) ;; {$0.code == vm::OP_MOD} ;; !{read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value == uint256_0} ;; {upper(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value)}
each @gas_used = (@gas_used + INSTR_COST + INSTR_DIV_128_COST) ;; {$0.code == vm::OP_MOD} ;; !{read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value == uint256_0} ;; !{upper(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value)} ;; {upper(lower(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value))}
each @gas_used = (@gas_used + INSTR_COST + INSTR_DIV_64_COST) ;; {$0.code == vm::OP_MOD} ;; !{read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value == uint256_0} ;; !{upper(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value)} ;; !{upper(lower(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value))}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, (read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value % read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value))) ;; {$0.code == vm::OP_MOD} ;; !{read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value == uint256_0}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_NOT}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_NOT}
each read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_NOT}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, ~(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).value))) ;; {$0.code == vm::OP_NOT} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_UINT}
each at(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))).size)) = u8(~(at(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))).size)))) ;; {$0.code == vm::OP_NOT} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_BINARY}
each assign(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))))) ;; {$0.code == vm::OP_NOT} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_BINARY}
each is_true(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))) ;; {$0.code == vm::OP_NOT} ;; !{($0.flags & OPFLAG_BITWISE)}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::var_t, !{is_true(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))))})) ;; {$0.code == vm::OP_NOT} ;; !{($0.flags & OPFLAG_BITWISE)}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_XOR}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_XOR}
each deref_addr($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_XOR}
each read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_XOR}
each read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))) ;; {$0.code == vm::OP_XOR}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, (read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).value ^ read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).value))) ;; {$0.code == vm::OP_XOR} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).type} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_UINT}
each at(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY).size)) = u8((at(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY).size)) ^ at(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY).size)))) ;; {$0.code == vm::OP_XOR} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).type} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_BINARY} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).size}
each assign(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY)) ;; {$0.code == vm::OP_XOR} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).type} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_BINARY} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).size}
each is_true(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))) ;; {$0.code == vm::OP_XOR} ;; !{($0.flags & OPFLAG_BITWISE)}
each is_true(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)))) ;; {$0.code == vm::OP_XOR} ;; !{($0.flags & OPFLAG_BITWISE)}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::var_t, ({is_true(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))))} ^ {is_true(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))))}))) ;; {$0.code == vm::OP_XOR} ;; !{($0.flags & OPFLAG_BITWISE)}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_AND}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_AND}
each deref_addr($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_AND}
each read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_AND}
each read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))) ;; {$0.code == vm::OP_AND}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, (read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).value & read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).value))) ;; {$0.code == vm::OP_AND} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).type} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_UINT}
each at(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY).size)) = u8((at(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY).size)) & at(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY).size)))) ;; {$0.code == vm::OP_AND} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).type} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_BINARY} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).size}
each assign(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY)) ;; {$0.code == vm::OP_AND} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).type} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_BINARY} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).size}
each is_true(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))) ;; {$0.code == vm::OP_AND} ;; !{($0.flags & OPFLAG_BITWISE)}
each is_true(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)))) ;; {$0.code == vm::OP_AND} ;; !{($0.flags & OPFLAG_BITWISE)} ;; {is_true(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))))}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::var_t, ({is_true(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))))} && {is_true(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))))}))) ;; {$0.code == vm::OP_AND} ;; !{($0.flags & OPFLAG_BITWISE)}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_OR}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_OR}
each deref_addr($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_OR}
each read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_OR}
each read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))) ;; {$0.code == vm::OP_OR}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, (read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).value | read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).value))) ;; {$0.code == vm::OP_OR} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).type} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_UINT}
each at(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY).size)) = u8((at(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY).size)) | at(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY).size)))) ;; {$0.code == vm::OP_OR} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).type} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_BINARY} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).size}
each assign(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY)) ;; {$0.code == vm::OP_OR} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).type} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_BINARY} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).size}
each is_true(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))) ;; {$0.code == vm::OP_OR} ;; !{($0.flags & OPFLAG_BITWISE)}
each is_true(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)))) ;; {$0.code == vm::OP_OR} ;; !{($0.flags & OPFLAG_BITWISE)} ;; !{is_true(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))))}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::var_t, ({is_true(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))))} || {is_true(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))))}))) ;; {$0.code == vm::OP_OR} ;; !{($0.flags & OPFLAG_BITWISE)}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_MIN}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_MIN}
each deref_addr($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_MIN}
each read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT) ;; {$0.code == vm::OP_MIN}
each read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT) ;; {$0.code == vm::OP_MIN}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, ite({read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value < read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value}, read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value, read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value))) ;; {$0.code == vm::OP_MIN}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_MAX}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_MAX}
each deref_addr($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_MAX}
each read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT) ;; {$0.code == vm::OP_MAX}
each read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT) ;; {$0.code == vm::OP_MAX}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, ite({read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value < read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value}, read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value, read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value))) ;; {$0.code == vm::OP_MAX}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_SHL}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_SHL}
each deref_value($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_SHL}
each read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT) ;; {$0.code == vm::OP_SHL}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, wide256((read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value << deref_value($0.c, ($0.flags & OPFLAG_REF_C)))))) ;; {$0.code == vm::OP_SHL}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_SHR}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_SHR}
each deref_value($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_SHR}
each read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT) ;; {$0.code == vm::OP_SHR}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, (read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value >> deref_value($0.c, ($0.flags & OPFLAG_REF_C))))) ;; {$0.code == vm::OP_SHR}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_CMP_EQ} | {$0.code == vm::OP_CMP_GTE} | {$0.code == vm::OP_CMP_GT} | {$0.code == vm::OP_CMP_LTE} | {$0.code == vm::OP_CMP_LT} | {$0.code == vm::OP_CMP_NEQ}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_CMP_EQ} | {$0.code == vm::OP_CMP_GTE} | {$0.code == vm::OP_CMP_GT} | {$0.code == vm::OP_CMP_LTE} | {$0.code == vm::OP_CMP_LT} | {$0.code == vm::OP_CMP_NEQ}
each deref_addr($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_CMP_EQ} | {$0.code == vm::OP_CMP_GTE} | {$0.code == vm::OP_CMP_GT} | {$0.code == vm::OP_CMP_LTE} | {$0.code == vm::OP_CMP_LT} | {$0.code == vm::OP_CMP_NEQ}
each read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_CMP_EQ} | {$0.code == vm::OP_CMP_GTE} | {$0.code == vm::OP_CMP_GT} | {$0.code == vm::OP_CMP_LTE} | {$0.code == vm::OP_CMP_LT} | {$0.code == vm::OP_CMP_NEQ}
each read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))) ;; {$0.code == vm::OP_CMP_EQ} | {$0.code == vm::OP_CMP_GTE} | {$0.code == vm::OP_CMP_GT} | {$0.code == vm::OP_CMP_LTE} | {$0.code == vm::OP_CMP_LT} | {$0.code == vm::OP_CMP_NEQ}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_TYPE}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_TYPE}
each read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_TYPE}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type)) ;; {$0.code == vm::OP_TYPE}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_SIZE}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_SIZE}
each read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_SIZE}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size)) ;; {$0.code == vm::OP_SIZE} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_BINARY} | {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_STRING}
each write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size)) ;; {$0.code == vm::OP_SIZE} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_ARRAY}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_GET}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_GET}
each deref_addr($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_GET}
each get(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), $0.flags) ;; {$0.code == vm::OP_GET}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_SET}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_SET}
each deref_addr($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_SET}
each set(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), $0.flags) ;; {$0.code == vm::OP_SET}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_ERASE}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_ERASE}
each erase(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), $0.flags) ;; {$0.code == vm::OP_ERASE}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_PUSH_BACK}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_PUSH_BACK}
each push_back(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_PUSH_BACK}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_POP_BACK}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_POP_BACK}
each pop_back(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_POP_BACK}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_CONV}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_CONV}
each deref_value($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_CONV}
each deref_value($0.d, ($0.flags & OPFLAG_REF_D)) ;; {$0.code == vm::OP_CONV}
each conv(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_value($0.c, ($0.flags & OPFLAG_REF_C)), deref_value($0.d, ($0.flags & OPFLAG_REF_D))) ;; {$0.code == vm::OP_CONV}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_CONCAT}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_CONCAT}
each deref_addr($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_CONCAT}
each concat(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_addr($0.c, ($0.flags & OPFLAG_REF_C))) ;; {$0.code == vm::OP_CONCAT}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_MEMCPY}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_MEMCPY}
each deref_value($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_MEMCPY}
each deref_value($0.d, ($0.flags & OPFLAG_REF_D)) ;; {$0.code == vm::OP_MEMCPY}
each memcpy(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_value($0.c, ($0.flags & OPFLAG_REF_C)), deref_value($0.d, ($0.flags & OPFLAG_REF_D))) ;; {$0.code == vm::OP_MEMCPY}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_SHA256}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_SHA256}
each sha256(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_SHA256}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_VERIFY}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_VERIFY}
each deref_addr($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_VERIFY}
each deref_addr($0.d, ($0.flags & OPFLAG_REF_D)) ;; {$0.code == vm::OP_VERIFY}
each verify(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), deref_addr($0.d, ($0.flags & OPFLAG_REF_D))) ;; {$0.code == vm::OP_VERIFY}
each deref_value($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_LOG}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_LOG}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_SEND}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_SEND}
each deref_addr($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_SEND}
each deref_addr($0.d, ($0.flags & OPFLAG_REF_D)) ;; {$0.code == vm::OP_SEND}
each send(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), deref_addr($0.d, ($0.flags & OPFLAG_REF_D))) ;; {$0.code == vm::OP_SEND}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_MINT}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_MINT}
each deref_addr($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_MINT}
each mint(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_addr($0.c, ($0.flags & OPFLAG_REF_C))) ;; {$0.code == vm::OP_MINT}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_EVENT}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_EVENT}
each event(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_EVENT}
each deref_value($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_FAIL}
each @error_code = u32(deref_value($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_FAIL}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_FAIL}
each read(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), false) ;; {$0.code == vm::OP_FAIL}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_RCALL}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_RCALL}
each deref_value($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_RCALL}
each deref_value($0.d, ($0.flags & OPFLAG_REF_D)) ;; {$0.code == vm::OP_RCALL}
each rcall(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_value($0.c, ($0.flags & OPFLAG_REF_C)), deref_value($0.d, ($0.flags & OPFLAG_REF_D))) ;; {$0.code == vm::OP_RCALL}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_CREAD}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_CREAD}
each deref_addr($0.c, ($0.flags & OPFLAG_REF_C)) ;; {$0.code == vm::OP_CREAD}
each cread(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_addr($0.c, ($0.flags & OPFLAG_REF_C))) ;; {$0.code == vm::OP_CREAD}
each deref_addr($0.a, ($0.flags & OPFLAG_REF_A)) ;; {$0.code == vm::OP_BALANCE}
each deref_addr($0.b, ($0.flags & OPFLAG_REF_B)) ;; {$0.code == vm::OP_BALANCE}
each read_balance(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_BALANCE}
each get_frame()
each get_frame().instr_ptr = (get_frame().instr_ptr + 1)
exit {did @gas_used = (@gas_used + INSTR_COST)}
exit !{$0.code == vm::OP_JUMP} | {did deref_value($0.a, ($0.flags & OPFLAG_REF_A))}
exit !{$0.code == vm::OP_JUMP} | {did jump(deref_value($0.a, ($0.flags & OPFLAG_REF_A)))}
exit !{$0.code == vm::OP_JUMPI} | !{is_true(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))} | {$0.code == vm::OP_JUMP} | {did deref_addr($0.b, ($0.flags & OPFLAG_REF_B))}
exit !{$0.code == vm::OP_JUMPI} | !{is_true(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))} | {$0.code == vm::OP_JUMP} | {did deref_value($0.a, ($0.flags & OPFLAG_REF_A))}
exit !{$0.code == vm::OP_JUMPI} | !{is_true(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))} | {$0.code == vm::OP_JUMP} | {did is_true(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))}
exit !{$0.code == vm::OP_JUMPI} | !{is_true(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))} | {$0.code == vm::OP_JUMP} | {did jump(deref_value($0.a, ($0.flags & OPFLAG_REF_A)))}
exit !{$0.code == vm::OP_JUMPN} | {$0.code == vm::OP_JUMP} | {did deref_addr($0.b, ($0.flags & OPFLAG_REF_B))} | {is_true(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))}
exit !{$0.code == vm::OP_JUMPN} | {$0.code == vm::OP_JUMP} | {did deref_value($0.a, ($0.flags & OPFLAG_REF_A))} | {is_true(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))}
exit !{$0.code == vm::OP_JUMPN} | {$0.code == vm::OP_JUMP} | {did is_true(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))} | {is_true(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))}
exit !{$0.code == vm::OP_JUMPN} | {$0.code == vm::OP_JUMP} | {did jump(deref_value($0.a, ($0.flags & OPFLAG_REF_A)))} | {is_true(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))}
at @gas_used = (@gas_used + INSTR_COST)
only erase(…) ;; erase(deref_addr($0.a, …)) ;; erase(deref_addr($0.a, …), deref_addr($0.b, …), $0.flags)
at erase(‥$0.a‥) ;; {$0.code == vm::OP_CLR} | {$0.code == vm::OP_ERASE} ;; !{$0.code == vm::OP_CLR} | !{($0.flags & OPFLAG_REF_A)}
at deref_addr($0.a, ($0.flags & OPFLAG_REF_A))
at deref_addr($0.b, ($0.flags & OPFLAG_REF_B))
at copy(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_COPY}
at clone(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_CLONE}
at deref_value($0.a, ($0.flags & OPFLAG_REF_A))
at jump(deref_value($0.a, ($0.flags & OPFLAG_REF_A)))
at is_true(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))
at deref_value($0.b, ($0.flags & OPFLAG_REF_B))
at call(deref_value($0.a, ($0.flags & OPFLAG_REF_A)), deref_value($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_CALL} ;; !{($0.flags & OPFLAG_REF_B)}
at ret() ;; {$0.code == vm::OP_RET}
at deref_addr($0.c, ($0.flags & OPFLAG_REF_C))
at read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT)
at read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT)
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, (read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value + read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value))) ;; {$0.code == vm::OP_ADD} ;; !{($0.flags & OPFLAG_CATCH_OVERFLOW)} | !{(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value + read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value) < read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value}
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, (-read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value + read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value))) ;; {$0.code == vm::OP_SUB} ;; !{($0.flags & OPFLAG_CATCH_OVERFLOW)} | !{read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value < (-read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value + read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value)}
at @gas_used = (@gas_used + INSTR_COST + INSTR_MUL_256_COST) ;; {$0.code == vm::OP_MUL} ;; {(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value >> 64)} | {(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value >> 64)}
at @gas_used = (@gas_used + INSTR_COST + INSTR_MUL_128_COST) ;; {$0.code == vm::OP_MUL} ;; !{(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value >> 64)} ;; !{(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value >> 64)}
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, wide256((read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value * read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value)))) ;; {$0.code == vm::OP_MUL} ;; !{($0.flags & OPFLAG_CATCH_OVERFLOW)} | !{(uint256_max / read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value) < read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value} | !{@protocol_version} | {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value == uint256_0} ;; !{($0.flags & OPFLAG_CATCH_OVERFLOW)} | !{wide256((read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value * read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value)) < read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value} | !{wide256((read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value * read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value)) < read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value} | {@protocol_version}
at @gas_used = (@gas_used + INSTR_COST + INSTR_DIV_256_COST) ;; !{read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value == uint256_0} ;; {upper(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value)}
at @gas_used = (@gas_used + INSTR_COST + INSTR_DIV_128_COST) ;; !{read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value == uint256_0} ;; !{upper(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value)} ;; {upper(lower(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value))}
at @gas_used = (@gas_used + INSTR_COST + INSTR_DIV_64_COST) ;; !{read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value == uint256_0} ;; !{upper(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value)} ;; !{upper(lower(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value))}
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, (read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value / read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value))) ;; {$0.code == vm::OP_DIV} ;; !{read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value == uint256_0}
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, (read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value % read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value))) ;; {$0.code == vm::OP_MOD} ;; !{read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value == uint256_0}
at read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, ~(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).value))) ;; {$0.code == vm::OP_NOT} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_UINT}
at at(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))).size)) = u8(~(at(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))).size)))) ;; {$0.code == vm::OP_NOT} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_BINARY}
at assign(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))))) ;; {$0.code == vm::OP_NOT} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_BINARY}
at is_true(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)))) ;; !{($0.flags & OPFLAG_BITWISE)}
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::var_t, !{is_true(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))))})) ;; {$0.code == vm::OP_NOT} ;; !{($0.flags & OPFLAG_BITWISE)}
at read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)))
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, (read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).value ^ read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).value))) ;; {$0.code == vm::OP_XOR} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).type} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_UINT}
at at(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY).size)) = u8((at(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY).size)) ^ at(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY).size)))) ;; {$0.code == vm::OP_XOR} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).type} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_BINARY} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).size}
at assign(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY)) ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).type} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_BINARY} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).size}
at is_true(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)))) ;; !{($0.flags & OPFLAG_BITWISE)}
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::var_t, ({is_true(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))))} ^ {is_true(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))))}))) ;; {$0.code == vm::OP_XOR} ;; !{($0.flags & OPFLAG_BITWISE)}
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, (read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).value & read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).value))) ;; {$0.code == vm::OP_AND} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).type} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_UINT}
at at(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY).size)) = u8((at(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY).size)) & at(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY).size)))) ;; {$0.code == vm::OP_AND} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).type} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_BINARY} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).size}
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::var_t, ({is_true(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))))} && {is_true(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))))}))) ;; {$0.code == vm::OP_AND} ;; !{($0.flags & OPFLAG_BITWISE)}
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, (read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).value | read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).value))) ;; {$0.code == vm::OP_OR} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).type} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_UINT}
at at(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY).size)) = u8((at(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY).size)) | at(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))), idx(alloc(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size, vm::TYPE_BINARY).size)))) ;; {$0.code == vm::OP_OR} ;; {($0.flags & OPFLAG_BITWISE)} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).type} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == vm::TYPE_BINARY} ;; {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).size}
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::var_t, ({is_true(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))))} || {is_true(read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))))}))) ;; {$0.code == vm::OP_OR} ;; !{($0.flags & OPFLAG_BITWISE)}
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, ite({read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value < read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value}, read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value, read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value))) ;; {$0.code == vm::OP_MIN}
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, ite({read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value < read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value}, read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value, read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), vm::TYPE_UINT).value))) ;; {$0.code == vm::OP_MAX}
at deref_value($0.c, ($0.flags & OPFLAG_REF_C))
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, wide256((read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value << deref_value($0.c, ($0.flags & OPFLAG_REF_C)))))) ;; {$0.code == vm::OP_SHL}
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, (read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), vm::TYPE_UINT).value >> deref_value($0.c, ($0.flags & OPFLAG_REF_C))))) ;; {$0.code == vm::OP_SHR}
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::var_t, ((!{$0.code == vm::OP_CMP_EQ} && ((!{$0.code == vm::OP_CMP_NEQ} && ((!{$0.code == vm::OP_CMP_LT} && ((!{$0.code == vm::OP_CMP_GT} && ((!{0 < compare(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))), read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))))} && {$0.code == vm::OP_CMP_LTE}) || ({$0.code == vm::OP_CMP_GTE} && {-1 < compare(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))), read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))))}))) || ({$0.code == vm::OP_CMP_GT} && {0 < compare(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))), read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))))}))) || (!{-1 < compare(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))), read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))))} && {$0.code == vm::OP_CMP_LT}))) || ({$0.code == vm::OP_CMP_NEQ} && {compare(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))), read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))))}))) || (!{compare(read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))), read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))))} && {$0.code == vm::OP_CMP_EQ})))) ;; {$0.code == vm::OP_CMP_EQ} | {$0.code == vm::OP_CMP_GTE} | {$0.code == vm::OP_CMP_GT} | {$0.code == vm::OP_CMP_LTE} | {$0.code == vm::OP_CMP_LT} | {$0.code == vm::OP_CMP_NEQ} ;; {$0.code == vm::OP_CMP_EQ} | {$0.code == vm::OP_CMP_NEQ} | {read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type == read_fail(deref_addr($0.c, ($0.flags & OPFLAG_REF_C))).type}
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).type)) ;; {$0.code == vm::OP_TYPE}
at write(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), ctor(vm::uint_t, read_fail(deref_addr($0.b, ($0.flags & OPFLAG_REF_B))).size)) ;; {$0.code == vm::OP_SIZE}
at get(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), $0.flags) ;; {$0.code == vm::OP_GET}
at set(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), $0.flags) ;; {$0.code == vm::OP_SET}
at erase(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), $0.flags) ;; {$0.code == vm::OP_ERASE}
at push_back(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_PUSH_BACK}
at pop_back(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_POP_BACK}
at deref_value($0.d, ($0.flags & OPFLAG_REF_D))
at conv(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_value($0.c, ($0.flags & OPFLAG_REF_C)), deref_value($0.d, ($0.flags & OPFLAG_REF_D))) ;; {$0.code == vm::OP_CONV}
at concat(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_addr($0.c, ($0.flags & OPFLAG_REF_C))) ;; {$0.code == vm::OP_CONCAT}
at memcpy(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_value($0.c, ($0.flags & OPFLAG_REF_C)), deref_value($0.d, ($0.flags & OPFLAG_REF_D))) ;; {$0.code == vm::OP_MEMCPY}
at sha256(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_SHA256}
at deref_addr($0.d, ($0.flags & OPFLAG_REF_D))
at verify(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), deref_addr($0.d, ($0.flags & OPFLAG_REF_D))) ;; {$0.code == vm::OP_VERIFY}
at send(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_addr($0.c, ($0.flags & OPFLAG_REF_C)), deref_addr($0.d, ($0.flags & OPFLAG_REF_D))) ;; {$0.code == vm::OP_SEND}
at mint(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_addr($0.c, ($0.flags & OPFLAG_REF_C))) ;; {$0.code == vm::OP_MINT}
at event(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_EVENT}
at @error_code = u32(deref_value($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_FAIL}
at read(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), false) ;; {$0.code == vm::OP_FAIL}
at rcall(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_value($0.c, ($0.flags & OPFLAG_REF_C)), deref_value($0.d, ($0.flags & OPFLAG_REF_D))) ;; {$0.code == vm::OP_RCALL}
at cread(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B)), deref_addr($0.c, ($0.flags & OPFLAG_REF_C))) ;; {$0.code == vm::OP_CREAD}
at read_balance(deref_addr($0.a, ($0.flags & OPFLAG_REF_A)), deref_addr($0.b, ($0.flags & OPFLAG_REF_B))) ;; {$0.code == vm::OP_BALANCE}
at get_frame() ;; !{$0.code == vm::OP_CLR} | !{($0.flags & OPFLAG_REF_A)} | {$0.code == vm::OP_NOP}
at get_frame().instr_ptr = (get_frame().instr_ptr + 1) ;; !{$0.code == vm::OP_CLR} | !{($0.flags & OPFLAG_REF_A)} | {$0.code == vm::OP_NOP}
fn mmx::vm::Engine::erase sig=unsigned~char
each read_fail($0)
each erase_key($0, $1) ;; {read_fail($0).type == vm::TYPE_MAP}
raise !{read_fail($0).type == vm::TYPE_MAP}
exit {did erase_key($0, $1)}
exit {did read_fail($0)}
exit {read_fail($0).type == vm::TYPE_MAP}
at read_fail($0)
at erase_key($0, $1)
fn mmx::vm::Engine::is_true sig=unsigned
each read_fail($0)
each is_true(read_fail($0))
never throw …
exit {did is_true(read_fail($0))}
exit {did read_fail($0)}
true {is_true(read_fail($0))}
false !{is_true(read_fail($0))}
at read_fail($0)
at is_true(read_fail($0))
fn mmx::vm::Engine::is_true sig=var_t
never throw …
exit !{$0.type == vm::TYPE_BINARY} | {$0.type == vm::TYPE_FALSE} | {$0.type == vm::TYPE_NIL} | {$0.type == vm::TYPE_UINT} | {ret = $0.size}
exit !{$0.type == vm::TYPE_FALSE} | {ret = false}
exit !{$0.type == vm::TYPE_NIL} | {ret = false}
exit !{$0.type == vm::TYPE_STRING} | {$0.type == vm::TYPE_FALSE} | {$0.type == vm::TYPE_NIL} | {$0.type == vm::TYPE_UINT} | {ret = $0.size}
exit !{$0.type == vm::TYPE_UINT} | {ret = {$0.value}}
exit {$0.type == vm::TYPE_BINARY} | {$0.type == vm::TYPE_FALSE} | {$0.type == vm::TYPE_NIL} | {$0.type == vm::TYPE_STRING} | {$0.type == vm::TYPE_UINT} | {ret = true}
