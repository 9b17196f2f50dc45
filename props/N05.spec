tus src/Node_validate.cpp
fn mmx::Node::execute sig=operation::Execute
each %shared_ptr<vm::Engine>.do_profile = $1.do_profile ;; {is<contract::Executable>($3)} ;; {$3}
each %shared_ptr<vm::Engine>.do_trace = $1.do_trace ;; {is<contract::Executable>($3)} ;; {$3}
each %shared_ptr<vm::Engine>.gas_limit = min((-min($8, fee_to_cost($0.max_fee_amount, $0.fee_ratio)) + fee_to_cost($0.max_fee_amount, $0.fee_ratio)), @params.max_tx_cost) ;; {is<contract::Executable>($3)} ;; {$3}
each get_contract_for_ex($2.user, %shared_ptr<vm::Engine>.gas_used, min((-min($8, fee_to_cost($0.max_fee_amount, $0.fee_ratio)) + fee_to_cost($0.max_fee_amount, $0.fee_ratio)), @params.max_tx_cost)) ;; {is<contract::Executable>($3)} ;; {$3} ;; {$2.user}
each validate(get_contract_for_ex($2.user, %shared_ptr<vm::Engine>.gas_used, min((-min($8, fee_to_cost($0.max_fee_amount, $0.fee_ratio)) + fee_to_cost($0.max_fee_amount, $0.fee_ratio)), @params.max_tx_cost)), get_solution($0, $2.solution), $0.id, $0.version) ;; {is<contract::Executable>($3)} ;; {$3} ;; {$2.user}
each write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_USER), ctor(vm::varptr_t, to_binary($2.user))) ;; {is<contract::Executable>($3)} ;; {$3} ;; {$2.user}
each write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_USER), ctor(vm::var_t)) ;; {is<contract::Executable>($3)} ;; {$3} ;; !{$2.user}
each write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_ADDRESS), ctor(vm::varptr_t, to_binary($4))) ;; {is<contract::Executable>($3)} ;; {$3}
each write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_NETWORK), ctor(vm::varptr_t, to_binary(@params.network, vm::TYPE_STRING))) ;; {is<contract::Executable>($3)} ;; {$3}
each get_balance($7, $4, $2.currency) ;; {is<contract::Executable>($3)} ;; {$3} ;; {is<operation::Deposit>($2)} ;; {$2}
each set_balance($7, $4, $2.currency, ($2.amount + ite({get_balance($7, $4, $2.currency)}, get_balance($7, $4, $2.currency), 0))) ;; {is<contract::Executable>($3)} ;; {$3} ;; {is<operation::Deposit>($2)} ;; {$2}
each set_deposit(%shared_ptr<vm::Engine>, $2.currency, $2.amount) ;; {is<contract::Executable>($3)} ;; {$3} ;; {$1.height < @params.hardfork2_height} ;; {is<operation::Deposit>($2)} ;; {$2}
each set_args(%shared_ptr<vm::Engine>, $2.args) ;; {is<contract::Executable>($3)} ;; {$3} ;; {$1.height < @params.hardfork2_height}
each execute($0, $1, $3, $5, $6, $7, %shared_ptr<vm::Engine>, $2.method, $9, $10, lambda) ;; {is<contract::Executable>($3)} ;; {$3}
each set_deposit($cb0, $2.currency, $2.amount) ;; {is<contract::Executable>($3)} ;; {$3} ;; {is<operation::Deposit>($2)} ;; {$2}
each set_args($cb0, $2.args) ;; {is<contract::Executable>($3)} ;; {$3}
never break(%shared_ptr<vm::Engine>.storage.trace)
raise !{$3} | !{is<contract::Executable>($3)}
exit {$3}
exit {did %shared_ptr<vm::Engine>.do_profile = $1.do_profile}
exit {did %shared_ptr<vm::Engine>.do_trace = $1.do_trace}
exit {did %shared_ptr<vm::Engine>.gas_limit = min((-min($8, fee_to_cost($0.max_fee_amount, $0.fee_ratio)) + fee_to_cost($0.max_fee_amount, $0.fee_ratio)), @params.max_tx_cost)}
exit {did execute($0, $1, $3, $5, $6, $7, %shared_ptr<vm::Engine>, $2.method, $9, $10, lambda)}
exit {did write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_ADDRESS), ctor(vm::varptr_t, to_binary($4)))}
exit {did write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_NETWORK), ctor(vm::varptr_t, to_binary(@params.network, vm::TYPE_STRING)))}
exit {is<contract::Executable>($3)}
exit {out $5 = …}
exit {out $6 = …}
exit {out $8 = ($8 + min(%shared_ptr<vm::Engine>.gas_used, min((-min($8, fee_to_cost($0.max_fee_amount, $0.fee_ratio)) + fee_to_cost($0.max_fee_amount, $0.fee_ratio)), @params.max_tx_cost)))}
exit {out $9 = …}
exit !{$1.height < @params.hardfork2_height} | {did set_args(%shared_ptr<vm::Engine>, $2.args)}
exit !{$2.user} | {did get_contract_for_ex($2.user, %shared_ptr<vm::Engine>.gas_used, min((-min($8, fee_to_cost($0.max_fee_amount, $0.fee_ratio)) + fee_to_cost($0.max_fee_amount, $0.fee_ratio)), @params.max_tx_cost))}
exit !{$2.user} | {did validate(get_contract_for_ex($2.user, %shared_ptr<vm::Engine>.gas_used, min((-min($8, fee_to_cost($0.max_fee_amount, $0.fee_ratio)) + fee_to_cost($0.max_fee_amount, $0.fee_ratio)), @params.max_tx_cost)), get_solution($0, $2.solution), $0.id, $0.version)}
exit !{$2.user} | {did write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_USER), ctor(vm::varptr_t, to_binary($2.user)))}
exit {$2.user} | {did write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_USER), ctor(vm::var_t))}
exit !{$2} | !{is<operation::Deposit>($2)} | {did get_balance($7, $4, $2.currency)}
exit !{$2} | !{is<operation::Deposit>($2)} | {did set_balance($7, $4, $2.currency, ($2.amount + ite({get_balance($7, $4, $2.currency)}, get_balance($7, $4, $2.currency), 0)))}
exit !{$1.height < @params.hardfork2_height} | !{$2} | !{is<operation::Deposit>($2)} | {did set_deposit(%shared_ptr<vm::Engine>, $2.currency, $2.amount)}
at %shared_ptr<vm::Engine>.do_profile = $1.do_profile
at %shared_ptr<vm::Engine>.do_trace = $1.do_trace
at %shared_ptr<vm::Engine>.gas_limit = min((-min($8, fee_to_cost($0.max_fee_amount, $0.fee_ratio)) + fee_to_cost($0.max_fee_amount, $0.fee_ratio)), @params.max_tx_cost)
at get_contract_for_ex($2.user, %shared_ptr<vm::Engine>.gas_used, min((-min($8, fee_to_cost($0.max_fee_amount, $0.fee_ratio)) + fee_to_cost($0.max_fee_amount, $0.fee_ratio)), @params.max_tx_cost)) ;; {$2.user}
at validate(get_contract_for_ex($2.user, %shared_ptr<vm::Engine>.gas_used, min((-min($8, fee_to_cost($0.max_fee_amount, $0.fee_ratio)) + fee_to_cost($0.max_fee_amount, $0.fee_ratio)), @params.max_tx_cost)), get_solution($0, $2.solution), $0.id, $0.version) ;; {$2.user}
at write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_USER), ctor(vm::varptr_t, to_binary($2.user))) ;; {$2.user}
at write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_USER), ctor(vm::var_t)) ;; !{$2.user}
at write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_ADDRESS), ctor(vm::varptr_t, to_binary($4)))
at write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_NETWORK), ctor(vm::varptr_t, to_binary(@params.network, vm::TYPE_STRING)))
at get_balance($7, $4, $2.currency) ;; {is<operation::Deposit>($2)} ;; {$2}
at set_balance($7, $4, $2.currency, ($2.amount + ite({get_balance($7, $4, $2.currency)}, get_balance($7, $4, $2.currency), 0))) ;; {is<operation::Deposit>($2)} ;; {$2}
at set_deposit(%shared_ptr<vm::Engine>, $2.currency, $2.amount) ;; {$1.height < @params.hardfork2_height} ;; {is<operation::Deposit>($2)} ;; {$2}
at set_args(%shared_ptr<vm::Engine>, $2.args) ;; {$1.height < @params.hardfork2_height}
at execute($0, $1, $3, $5, $6, $7, %shared_ptr<vm::Engine>, $2.method, $9, $10, lambda)
at set_deposit($cb0, $2.currency, $2.amount) ;; {is<operation::Deposit>($2)} ;; {$2}
at set_args($cb0, $2.args)
fn mmx::Node::execute sig=contract::Executable
never break(loop)
each get_contract_as($2.binary, $6.gas_used, $6.gas_limit) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)}
each load($6, get_contract_as($2.binary, $6.gas_used, $6.gas_limit)) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)}
each $10($6) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; !{$1.height < @params.hardfork2_height}
each at(%map<addr_t,shared_ptr<Contract>>, $0.id) = $0.deploy ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)}
each $6.remote_call = lambda ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)}
each get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; !{at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}
each at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)) = get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; !{at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}
each check_gas(lock(%weak_ptr<vm::Engine>)) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
each %shared_ptr<vm::Engine>.gas_limit = (-min(lock(%weak_ptr<vm::Engine>).gas_limit, lock(%weak_ptr<vm::Engine>).gas_used) + lock(%weak_ptr<vm::Engine>).gas_limit) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
each get_stack_ptr(lock(%weak_ptr<vm::Engine>)) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
each copy(%shared_ptr<vm::Engine>, lock(%weak_ptr<vm::Engine>), (MEM_STACK + idx($cb2) + 1), (get_stack_ptr(lock(%weak_ptr<vm::Engine>)) + idx($cb2) + 1)) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)} ;; {$1.height < @params.hardfork2_height}
each write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_USER), ctor(vm::varptr_t, to_binary(lock(%weak_ptr<vm::Engine>).contract))) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)} ;; {$1.height < @params.hardfork2_height}
each write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_ADDRESS), ctor(vm::varptr_t, to_binary(get_external($2, $cb0)))) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)} ;; {$1.height < @params.hardfork2_height}
each write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_NETWORK), ctor(vm::varptr_t, to_binary(@params.network, vm::TYPE_STRING))) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)} ;; {$1.height < @params.hardfork2_height}
each execute($0, $1, ite({is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))}, ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)), 0), $3, $4, $5, %shared_ptr<vm::Engine>, $cb1, $8, false, lambda) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
each copy($cb0, lock(%weak_ptr<vm::Engine>), (MEM_STACK + idx($cb2) + 1), (get_stack_ptr(lock(%weak_ptr<vm::Engine>)) + idx($cb2) + 1)) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
each write($cb0, (MEM_EXTERN + vm::EXTERN_USER), ctor(vm::varptr_t, to_binary(lock(%weak_ptr<vm::Engine>).contract))) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
each write($cb0, (MEM_EXTERN + vm::EXTERN_ADDRESS), ctor(vm::varptr_t, to_binary(get_external($2, $cb0)))) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
each write($cb0, (MEM_EXTERN + vm::EXTERN_NETWORK), ctor(vm::varptr_t, to_binary(@params.network, vm::TYPE_STRING))) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
each copy(lock(%weak_ptr<vm::Engine>), %shared_ptr<vm::Engine>, get_stack_ptr(lock(%weak_ptr<vm::Engine>)), MEM_STACK) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
each $6.read_contract = lambda ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)}
each get_contract_ex($cb0, lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; !{at(%map<addr_t,shared_ptr<Contract>>, $cb0)}
each at(%map<addr_t,shared_ptr<Contract>>, $cb0) = get_contract_ex($cb0, lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; !{at(%map<addr_t,shared_ptr<Contract>>, $cb0)}
each assign(lock(%weak_ptr<vm::Engine>), $cb2, read_field(ite({at(%map<addr_t,shared_ptr<Contract>>, $cb0)}, at(%map<addr_t,shared_ptr<Contract>>, $cb0), get_contract_ex($cb0, lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)), $cb1)) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; {at(%map<addr_t,shared_ptr<Contract>>, $cb0)} | {get_contract_ex($cb0, lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
each check_gas(lock(%weak_ptr<vm::Engine>)) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; {at(%map<addr_t,shared_ptr<Contract>>, $cb0)} | {get_contract_ex($cb0, lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
each write($6, (MEM_EXTERN + vm::EXTERN_HEIGHT), ctor(vm::uint_t, $1.height)) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)}
each write($6, (MEM_EXTERN + vm::EXTERN_TXID), ctor(vm::varptr_t, to_binary($0.id))) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)}
each execute($6, find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7), true) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)}
each $8.code = $6.error_code ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)}
each $8.address = $6.error_addr ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)}
each $8.line = find_line(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $8.address) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {find_line(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $8.address)}
each dump_memory($6, 0, 18446744073709551615) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {@exec_debug}
each get_balance($5, $6.contract, elem($6.outputs).contract) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)}
each get_balance($5, $6.contract, elem($6.outputs).contract) = (-elem($6.outputs).amount + get_balance($5, $6.contract, elem($6.outputs).contract)) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {get_balance($5, $6.contract, elem($6.outputs).contract)} ;; !{get_balance($5, $6.contract, elem($6.outputs).contract) < elem($6.outputs).amount}
each set_balance($5, $6.contract, elem($6.outputs).contract, get_balance($5, $6.contract, elem($6.outputs).contract)) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {get_balance($5, $6.contract, elem($6.outputs).contract)} ;; !{get_balance($5, $6.contract, elem($6.outputs).contract) < elem($6.outputs).amount}
each push_back($3, elem($6.outputs)) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {get_balance($5, $6.contract, elem($6.outputs).contract)} ;; !{get_balance($5, $6.contract, elem($6.outputs).contract) < elem($6.outputs).amount}
each at($4, pair($6.contract, elem($6.outputs).contract)) = (at($4, pair($6.contract, elem($6.outputs).contract)) + elem($6.outputs).amount) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {get_balance($5, $6.contract, elem($6.outputs).contract)} ;; !{get_balance($5, $6.contract, elem($6.outputs).contract) < elem($6.outputs).amount}
each insert($3, end($3), begin($6.mint_outputs), end($6.mint_outputs)) ;; {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)}
never break($6.outputs)
raise !{has($1.mutate_map, $6.contract)}
raise {has($1.mutate_map, $6.contract)} ;; {end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)}
raise {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; !{get_contract_as($2.binary, $6.gas_used, $6.gas_limit)}
raise {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; !{find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)}
raise {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {$9} ;; !{find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7).is_init}
raise {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; !{$9} ;; !{find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7).is_public}
raise {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; !{lock(%weak_ptr<vm::Engine>)}
raise {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; !{at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | !{is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; !{get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)} | !{is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))}
raise {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; {lock(%weak_ptr<vm::Engine>)} ;; !{at(%map<addr_t,shared_ptr<Contract>>, $cb0)} ;; !{get_contract_ex($cb0, lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
raise {has($1.mutate_map, $6.contract)} ;; !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)} ;; {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)} ;; {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)} ;; !{get_balance($5, $6.contract, elem($6.outputs).contract)} | {get_balance($5, $6.contract, elem($6.outputs).contract) < elem($6.outputs).amount}
exit !{end(at($1.mutate_map, $6.contract)) == find(begin(at($1.mutate_map, $6.contract)), end(at($1.mutate_map, $6.contract)), $0.id)}
exit !{get_balance($5, $6.contract, elem($6.outputs).contract) < elem($6.outputs).amount}
exit {did $6.read_contract = lambda}
exit {did $6.remote_call = lambda}
exit {did at($4, pair($6.contract, elem($6.outputs).contract)) = (at($4, pair($6.contract, elem($6.outputs).contract)) + elem($6.outputs).amount)}
exit {did at(%map<addr_t,shared_ptr<Contract>>, $0.id) = $0.deploy}
exit {did execute($6, find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7), true)}
exit {did get_balance($5, $6.contract, elem($6.outputs).contract) = (-elem($6.outputs).amount + get_balance($5, $6.contract, elem($6.outputs).contract))}
exit {did get_balance($5, $6.contract, elem($6.outputs).contract)}
exit {did get_contract_as($2.binary, $6.gas_used, $6.gas_limit)}
exit {did insert($3, end($3), begin($6.mint_outputs), end($6.mint_outputs))}
exit {did load($6, get_contract_as($2.binary, $6.gas_used, $6.gas_limit))}
exit {did push_back($3, elem($6.outputs))}
exit {did set_balance($5, $6.contract, elem($6.outputs).contract, get_balance($5, $6.contract, elem($6.outputs).contract))}
exit {did write($6, (MEM_EXTERN + vm::EXTERN_HEIGHT), ctor(vm::uint_t, $1.height))}
exit {did write($6, (MEM_EXTERN + vm::EXTERN_TXID), ctor(vm::varptr_t, to_binary($0.id)))}
exit {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7)}
exit {get_balance($5, $6.contract, elem($6.outputs).contract)}
exit {get_contract_as($2.binary, $6.gas_used, $6.gas_limit)}
exit {has($1.mutate_map, $6.contract)}
exit !{$9} | {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7).is_init}
exit {$1.height < @params.hardfork2_height} | {did $10($6)}
exit {$9} | {find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7).is_public}
at get_contract_as($2.binary, $6.gas_used, $6.gas_limit)
at load($6, get_contract_as($2.binary, $6.gas_used, $6.gas_limit))
at $10($6) ;; !{$1.height < @params.hardfork2_height}
at at(%map<addr_t,shared_ptr<Contract>>, $0.id) = $0.deploy
at $6.remote_call = lambda
at get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit) ;; {lock(%weak_ptr<vm::Engine>)} ;; !{at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}
at at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)) = get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit) ;; {lock(%weak_ptr<vm::Engine>)} ;; !{at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}
at lock(%weak_ptr<vm::Engine>).gas_used = (@params.min_txfee_exec + lock(%weak_ptr<vm::Engine>).gas_used) ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
at check_gas(lock(%weak_ptr<vm::Engine>)) ;; {lock(%weak_ptr<vm::Engine>)}
at %shared_ptr<vm::Engine>.gas_limit = (-min(lock(%weak_ptr<vm::Engine>).gas_limit, lock(%weak_ptr<vm::Engine>).gas_used) + lock(%weak_ptr<vm::Engine>).gas_limit) ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
at get_stack_ptr(lock(%weak_ptr<vm::Engine>)) ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
at copy(%shared_ptr<vm::Engine>, lock(%weak_ptr<vm::Engine>), (MEM_STACK + idx($cb2) + 1), (get_stack_ptr(lock(%weak_ptr<vm::Engine>)) + idx($cb2) + 1)) ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)} ;; {$1.height < @params.hardfork2_height}
at write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_USER), ctor(vm::varptr_t, to_binary(lock(%weak_ptr<vm::Engine>).contract))) ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)} ;; {$1.height < @params.hardfork2_height}
at write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_ADDRESS), ctor(vm::varptr_t, to_binary(get_external($2, $cb0)))) ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)} ;; {$1.height < @params.hardfork2_height}
at write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_NETWORK), ctor(vm::varptr_t, to_binary(@params.network, vm::TYPE_STRING))) ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)} ;; {$1.height < @params.hardfork2_height}
at execute($0, $1, ite({is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))}, ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)), 0), $3, $4, $5, %shared_ptr<vm::Engine>, $cb1, $8, false, lambda) ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
at copy($cb0, lock(%weak_ptr<vm::Engine>), (MEM_STACK + idx($cb2) + 1), (get_stack_ptr(lock(%weak_ptr<vm::Engine>)) + idx($cb2) + 1)) ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
at write($cb0, (MEM_EXTERN + vm::EXTERN_USER), ctor(vm::varptr_t, to_binary(lock(%weak_ptr<vm::Engine>).contract))) ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
at write($cb0, (MEM_EXTERN + vm::EXTERN_ADDRESS), ctor(vm::varptr_t, to_binary(get_external($2, $cb0)))) ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
at write($cb0, (MEM_EXTERN + vm::EXTERN_NETWORK), ctor(vm::varptr_t, to_binary(@params.network, vm::TYPE_STRING))) ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
at copy(lock(%weak_ptr<vm::Engine>), %shared_ptr<vm::Engine>, get_stack_ptr(lock(%weak_ptr<vm::Engine>)), MEM_STACK) ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
at lock(%weak_ptr<vm::Engine>).gas_used = (%shared_ptr<vm::Engine>.gas_used + lock(%weak_ptr<vm::Engine>).gas_used) ;; {lock(%weak_ptr<vm::Engine>)} ;; {is<contract::Executable>(ite({at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))}, at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0)), get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)))} ;; {at(%map<addr_t,shared_ptr<Contract>>, get_external($2, $cb0))} | {get_contract_ex(get_external($2, $cb0), lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
at $6.read_contract = lambda
at get_contract_ex($cb0, lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit) ;; {lock(%weak_ptr<vm::Engine>)} ;; !{at(%map<addr_t,shared_ptr<Contract>>, $cb0)}
at at(%map<addr_t,shared_ptr<Contract>>, $cb0) = get_contract_ex($cb0, lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit) ;; {lock(%weak_ptr<vm::Engine>)} ;; !{at(%map<addr_t,shared_ptr<Contract>>, $cb0)}
at assign(lock(%weak_ptr<vm::Engine>), $cb2, read_field(ite({at(%map<addr_t,shared_ptr<Contract>>, $cb0)}, at(%map<addr_t,shared_ptr<Contract>>, $cb0), get_contract_ex($cb0, lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)), $cb1)) ;; {lock(%weak_ptr<vm::Engine>)} ;; {at(%map<addr_t,shared_ptr<Contract>>, $cb0)} | {get_contract_ex($cb0, lock(%weak_ptr<vm::Engine>).gas_used, lock(%weak_ptr<vm::Engine>).gas_limit)}
at write($6, (MEM_EXTERN + vm::EXTERN_HEIGHT), ctor(vm::uint_t, $1.height))
at write($6, (MEM_EXTERN + vm::EXTERN_TXID), ctor(vm::varptr_t, to_binary($0.id)))
at execute($6, find_method(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $7), true)
at $8.code = $6.error_code
at $8.address = $6.error_addr
at $8.line = find_line(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $8.address) ;; {find_line(get_contract_as($2.binary, $6.gas_used, $6.gas_limit), $8.address)}
at dump_memory($6, 0, 18446744073709551615) ;; {@exec_debug}
at get_balance($5, $6.contract, elem($6.outputs).contract)
at get_balance($5, $6.contract, elem($6.outputs).contract) = (-elem($6.outputs).amount + get_balance($5, $6.contract, elem($6.outputs).contract))
at set_balance($5, $6.contract, elem($6.outputs).contract, get_balance($5, $6.contract, elem($6.outputs).contract))
at push_back($3, elem($6.outputs))
at at($4, pair($6.contract, elem($6.outputs).contract)) = (at($4, pair($6.contract, elem($6.outputs).contract)) + elem($6.outputs).amount)
at insert($3, end($3), begin($6.mint_outputs), end($6.mint_outputs))
at execute($0, $1, …) ;; {did check_gas(lock(%weak_ptr<vm::Engine>))}
fn mmx::Node::prepare_context
each insert(%set<addr_t>, $1.id) ;; {$1.deploy}
each insert(%set<addr_t>, ite({ctor(addr_t) == elem(get_operations($1)).address}, $1.id, elem(get_operations($1)).address))
each %vector<addr_t> = get_all_depends($1.deploy) ;; {$1.id == elem(ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>)))} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy}
each %vector<addr_t> = get_all_depends(elem(ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>))), 1) ;; !{$1.id == elem(ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>)))}
each insert(%set<addr_t>, begin(%vector<addr_t>), end(%vector<addr_t>))
each setup_wait($0, $1.id, elem(%set<addr_t>))
each push_back(at($0.mutate_map, elem(%set<addr_t>)), $1.id)
each insert($0.signal_map, $1.id, new(Node::waitcond_t)) ;; !{empty(%set<addr_t>)}
never break(get_operations($1))
never break(ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>)))
never break(%set<addr_t>)
never throw …
at ctor:vector<addr_t>(begin(%set<addr_t>), end(%set<addr_t>), ctor(allocator<addr_t>))
exit {did insert(%set<addr_t>, ite({ctor(addr_t) == elem(get_operations($1)).address}, $1.id, elem(get_operations($1)).address))}
exit {did push_back(at($0.mutate_map, elem(%set<addr_t>)), $1.id)}
exit {did setup_wait($0, $1.id, elem(%set<addr_t>))}
exit !{$1.deploy} | {did insert(%set<addr_t>, $1.id)}
exit {$1.id == elem(ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>)))} | {did %vector<addr_t> = get_all_depends(elem(ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>))), 1)}
exit {did insert($0.signal_map, $1.id, new(Node::waitcond_t))} | {empty(%set<addr_t>)}
exit {did insert(%set<addr_t>, begin(%vector<addr_t>), end(%vector<addr_t>))} | {empty(ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>)))}
exit !{$1.deploy} | !{$1.id == elem(ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>)))} | !{is<contract::Executable>($1.deploy)} | {did %vector<addr_t> = get_all_depends($1.deploy)}
at insert(%set<addr_t>, $1.id) ;; {$1.deploy}
at insert(%set<addr_t>, ite({ctor(addr_t) == elem(get_operations($1)).address}, $1.id, elem(get_operations($1)).address))
at %vector<addr_t> = get_all_depends($1.deploy) ;; {$1.id == elem(ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>)))} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy}
at %vector<addr_t> = get_all_depends(elem(ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>))), 1) ;; !{$1.id == elem(ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>)))}
at insert(%set<addr_t>, begin(%vector<addr_t>), end(%vector<addr_t>))
at setup_wait($0, $1.id, elem(%set<addr_t>))
at push_back(at($0.mutate_map, elem(%set<addr_t>)), $1.id)
at insert($0.signal_map, $1.id, new(Node::waitcond_t)) ;; !{empty(%set<addr_t>)}
fn mmx::Node::new_exec_context
each %shared_ptr<Node::execution_context_t>.height = $0
each %shared_ptr<Node::execution_context_t>.storage = new(vm::StorageCache, @storage)
never throw …
exit {did %shared_ptr<Node::execution_context_t>.height = $0}
exit {did %shared_ptr<Node::execution_context_t>.storage = new(vm::StorageCache, @storage)}
exit {ret = %shared_ptr<Node::execution_context_t>}
fn mmx::Node::execution_context_t::wait
never break(loop)
at wait(at(@signal_map, elem(at(@wait_map, $0))).signal, fold(lock_guard(at(@signal_map, elem(at(@wait_map, $0))).mutex), out(wait‥))) ;; {has(@wait_map, $0)} ;; {has(@signal_map, elem(at(@wait_map, $0)))} ;; {at(@signal_map, elem(at(@wait_map, $0))).do_wait}
each wait(at(@signal_map, elem(at(@wait_map, $0))).signal, fold(lock_guard(at(@signal_map, elem(at(@wait_map, $0))).mutex), out(wait‥))) ;; {has(@wait_map, $0)} ;; {has(@signal_map, elem(at(@wait_map, $0)))} ;; {at(@signal_map, elem(at(@wait_map, $0))).do_wait}
never break(at(@wait_map, $0))
never throw …
value fold(lock_guard(at(@signal_map, elem(at(@wait_map, $0))).mutex), out(wait#v))
exit !{at(@signal_map, elem(at(@wait_map, $0))).do_wait} | !{has(@signal_map, elem(at(@wait_map, $0)))} | !{has(@wait_map, $0)}
at lock_guard(at(@signal_map, elem(at(@wait_map, $0))).mutex) ;; {has(@wait_map, $0)} ;; {has(@signal_map, elem(at(@wait_map, $0)))}
at wait(at(@signal_map, elem(at(@wait_map, $0))).signal, …) ;; {has(@wait_map, $0)} ;; {has(@signal_map, elem(at(@wait_map, $0)))} ;; {at(@signal_map, elem(at(@wait_map, $0))).do_wait}
fn mmx::Node::execution_context_t::signal
each at(@signal_map, $0).do_wait = false ;; {has(@signal_map, $0)}
each notify_all(at(@signal_map, $0).signal) ;; {has(@signal_map, $0)}
never throw …
exit !{has(@signal_map, $0)} | {did at(@signal_map, $0).do_wait = false}
exit !{has(@signal_map, $0)} | {did notify_all(at(@signal_map, $0).signal)}
at lock_guard(at(@signal_map, $0).mutex) ;; {has(@signal_map, $0)}
at at(@signal_map, $0).do_wait = false ;; {has(@signal_map, $0)}
at notify_all(at(@signal_map, $0).signal) ;; {has(@signal_map, $0)}
fn mmx::Node::execution_context_t::setup_wait
each insert(at(@wait_map, $0), back(at(@mutate_map, $1))) ;; !{empty(at(@mutate_map, $1))}
never throw …
exit {did insert(at(@wait_map, $0), back(at(@mutate_map, $1)))} | {empty(at(@mutate_map, $1))}
at insert(at(@wait_map, $0), back(at(@mutate_map, $1))) ;; !{empty(at(@mutate_map, $1))}
