tus src/Node_validate.cpp
fn mmx::Node::validate sig=execution_context_t
at execute($0, $1, %shared_ptr<operation::Execute>, $0.deploy, $0.id, %vector<txout_t>, %map<pair<addr_t,addr_t>,uint128>, %shared_ptr<vm::StorageCache>, fold($0.static_cost, ite({(IS_EXEC & elem($0.inputs).flags)}, out(get_contract_ex‥, elem($0.inputs).address, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))), ~), $0.inputs), %exec_error_t, true) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {$0.deploy} ;; {is_valid($0.deploy)} ;; {is<contract::Executable>($0.deploy)}
each %shared_ptr<contract::PubKey>.address = $0.sender ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)}
each validate(%shared_ptr<contract::PubKey>, at($0.solutions, 0), $0.id, $0.version) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)}
each find(%balance_cache_t, $0.sender, ctor(addr_t)) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)}
each %exec_error_t.code = error_code_e::INSUFFICIENT_FUNDS_TXFEE ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; !{has(%balance_cache_t, $0.sender)} | {find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)}
each find(%balance_cache_t, $0.sender, ctor(addr_t)) = (-cost_to_fee($0.static_cost, $0.fee_ratio) + find(%balance_cache_t, $0.sender, ctor(addr_t))) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)}
each %exec_error_t.code = error_code_e::TX_EXPIRED ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.expires < $1.height}
each %exec_error_t.address = 0 ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height}
each find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height}
each %exec_error_t.code = error_code_e::INSUFFICIENT_FUNDS ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; !{has(%balance_cache_t, elem($0.inputs).address)} | {find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) < elem($0.inputs).amount}
each get_contract_ex(elem($0.inputs).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {has(%balance_cache_t, elem($0.inputs).address)} ;; !{find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) < elem($0.inputs).amount} ;; {get_solution($0, elem($0.inputs).solution)} ;; {(IS_EXEC & elem($0.inputs).flags)}
each %shared_ptr<contract::PubKey>.address = elem($0.inputs).address ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {has(%balance_cache_t, elem($0.inputs).address)} ;; !{find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) < elem($0.inputs).amount} ;; {get_solution($0, elem($0.inputs).solution)} ;; !{(IS_EXEC & elem($0.inputs).flags)}
each validate(ite({(IS_EXEC & elem($0.inputs).flags)}, get_contract_ex(elem($0.inputs).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))), %shared_ptr<contract::PubKey>), get_solution($0, elem($0.inputs).solution), $0.id, $0.version) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {has(%balance_cache_t, elem($0.inputs).address)} ;; !{find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) < elem($0.inputs).amount} ;; {get_solution($0, elem($0.inputs).solution)} ;; !{(IS_EXEC & elem($0.inputs).flags)} | {get_contract_ex(elem($0.inputs).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))}
each find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) = (-elem($0.inputs).amount + find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract)) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {has(%balance_cache_t, elem($0.inputs).address)} ;; !{find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) < elem($0.inputs).amount} ;; {get_solution($0, elem($0.inputs).solution)} ;; !{(IS_EXEC & elem($0.inputs).flags)} | {get_contract_ex(elem($0.inputs).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))}
each at(%unordered_map<addr_t,uint128>, elem($0.inputs).contract) = (at(%unordered_map<addr_t,uint128>, elem($0.inputs).contract) + elem($0.inputs).amount) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {has(%balance_cache_t, elem($0.inputs).address)} ;; !{find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) < elem($0.inputs).amount} ;; {get_solution($0, elem($0.inputs).solution)} ;; !{(IS_EXEC & elem($0.inputs).flags)} | {get_contract_ex(elem($0.inputs).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))}
each %exec_error_t.address = (%exec_error_t.address + 1) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {has(%balance_cache_t, elem($0.inputs).address)} ;; !{find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) < elem($0.inputs).amount} ;; {get_solution($0, elem($0.inputs).solution)} ;; !{(IS_EXEC & elem($0.inputs).flags)} | {get_contract_ex(elem($0.inputs).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))}
each at(%unordered_map<addr_t,uint128>, elem($0.outputs).contract) = (-elem($0.outputs).amount + at(%unordered_map<addr_t,uint128>, elem($0.outputs).contract)) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {elem($0.outputs).amount} ;; !{at(%unordered_map<addr_t,uint128>, elem($0.outputs).contract) < elem($0.outputs).amount}
each %exec_error_t.address = (%exec_error_t.address + 1) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {elem($0.outputs).amount} ;; !{at(%unordered_map<addr_t,uint128>, elem($0.outputs).contract) < elem($0.outputs).amount}
each %exec_error_t.address = 4294967295 ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height}
each %exec_error_t.code = error_code_e::INVALID_CONTRACT ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {$0.deploy} ;; !{is_valid($0.deploy)}
each %exec_error_t.code = error_code_e::INVALID_CONTRACT ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {$0.deploy} ;; {is_valid($0.deploy)} ;; {is<contract::Executable>($0.deploy)} ;; !{count(@tx_index, elem($0.deploy.depends).second, 4294967295)}
each %shared_ptr<operation::Execute>.method = $0.deploy.init_method ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {$0.deploy} ;; {is_valid($0.deploy)} ;; {is<contract::Executable>($0.deploy)}
each %shared_ptr<operation::Execute>.args = $0.deploy.init_args ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {$0.deploy} ;; {is_valid($0.deploy)} ;; {is<contract::Executable>($0.deploy)}
each execute($0, $1, %shared_ptr<operation::Execute>, $0.deploy, $0.id, %vector<txout_t>, %map<pair<addr_t,addr_t>,uint128>, %shared_ptr<vm::StorageCache>, fold($0.static_cost, ite({(IS_EXEC & elem($0.inputs).flags)}, out(get_contract_ex‥, elem($0.inputs).address, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))), ~), $0.inputs), %exec_error_t, true) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {$0.deploy} ;; {is_valid($0.deploy)} ;; {is<contract::Executable>($0.deploy)}
each %exec_error_t.operation = 0 ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height}
each %exec_error_t.code = error_code_e::INVALID_OPERATION ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; !{elem(get_operations($0))} | !{is_valid(elem(get_operations($0)))}
each get_contract_ex(elem(get_operations($0)).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {elem(get_operations($0))} ;; {is_valid(elem(get_operations($0)))} ;; !{ctor(addr_t) == elem(get_operations($0)).address} ;; !{$0.id == elem(get_operations($0)).address}
each at(%unordered_map<addr_t,uint128>, elem(get_operations($0)).currency) = (-elem(get_operations($0)).amount + at(%unordered_map<addr_t,uint128>, elem(get_operations($0)).currency)) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {elem(get_operations($0))} ;; {is_valid(elem(get_operations($0)))} ;; !{ctor(addr_t) == elem(get_operations($0)).address} | {$0.deploy} ;; !{$0.id == elem(get_operations($0)).address} | {$0.deploy} ;; {$0.id == elem(get_operations($0)).address} | {ctor(addr_t) == elem(get_operations($0)).address} | {get_contract_ex(elem(get_operations($0)).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))} ;; {$0.deploy} | {get_contract_ex(elem(get_operations($0)).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))} ;; {is<operation::Deposit>(elem(get_operations($0)))} ;; !{at(%unordered_map<addr_t,uint128>, elem(get_operations($0)).currency) < elem(get_operations($0)).amount}
each at(%map<pair<addr_t,addr_t>,uint128>, pair(ite({ctor(addr_t) == elem(get_operations($0)).address}, $0.id, elem(get_operations($0)).address), elem(get_operations($0)).currency)) = (at(%map<pair<addr_t,addr_t>,uint128>, pair(ite({ctor(addr_t) == elem(get_operations($0)).address}, $0.id, elem(get_operations($0)).address), elem(get_operations($0)).currency)) + elem(get_operations($0)).amount) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {elem(get_operations($0))} ;; {is_valid(elem(get_operations($0)))} ;; !{ctor(addr_t) == elem(get_operations($0)).address} | {$0.deploy} ;; !{$0.id == elem(get_operations($0)).address} | {$0.deploy} ;; {$0.id == elem(get_operations($0)).address} | {ctor(addr_t) == elem(get_operations($0)).address} | {get_contract_ex(elem(get_operations($0)).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))} ;; {$0.deploy} | {get_contract_ex(elem(get_operations($0)).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))} ;; {is<operation::Deposit>(elem(get_operations($0)))} ;; !{at(%unordered_map<addr_t,uint128>, elem(get_operations($0)).currency) < elem(get_operations($0)).amount}
each %exec_error_t.operation = (%exec_error_t.operation + 1) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {elem(get_operations($0))} ;; {is_valid(elem(get_operations($0)))} ;; !{ctor(addr_t) == elem(get_operations($0)).address} | {$0.deploy} ;; !{$0.id == elem(get_operations($0)).address} | {$0.deploy} ;; {$0.id == elem(get_operations($0)).address} | {ctor(addr_t) == elem(get_operations($0)).address} | {get_contract_ex(elem(get_operations($0)).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))} ;; {$0.deploy} | {get_contract_ex(elem(get_operations($0)).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))}
each %exec_error_t.operation = 4294967295 ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height}
each at(%map<pair<addr_t,addr_t>,uint128>, elem(%map<pair<addr_t,addr_t>,uint128>).first) = (-min(at(%map<pair<addr_t,addr_t>,uint128>, elem(%map<pair<addr_t,addr_t>,uint128>).first), elem(%map<pair<addr_t,addr_t>,uint128>).second) + at(%map<pair<addr_t,addr_t>,uint128>, elem(%map<pair<addr_t,addr_t>,uint128>).first)) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height}
each %txin_t.address = elem(%map<pair<addr_t,addr_t>,uint128>).first.first ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {(-min(at(%map<pair<addr_t,addr_t>,uint128>, elem(%map<pair<addr_t,addr_t>,uint128>).first), elem(%map<pair<addr_t,addr_t>,uint128>).second) + elem(%map<pair<addr_t,addr_t>,uint128>).second)}
each %txin_t.contract = elem(%map<pair<addr_t,addr_t>,uint128>).first.second ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {(-min(at(%map<pair<addr_t,addr_t>,uint128>, elem(%map<pair<addr_t,addr_t>,uint128>).first), elem(%map<pair<addr_t,addr_t>,uint128>).second) + elem(%map<pair<addr_t,addr_t>,uint128>).second)}
each %txin_t.amount = (-min(at(%map<pair<addr_t,addr_t>,uint128>, elem(%map<pair<addr_t,addr_t>,uint128>).first), elem(%map<pair<addr_t,addr_t>,uint128>).second) + elem(%map<pair<addr_t,addr_t>,uint128>).second) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {(-min(at(%map<pair<addr_t,addr_t>,uint128>, elem(%map<pair<addr_t,addr_t>,uint128>).first), elem(%map<pair<addr_t,addr_t>,uint128>).second) + elem(%map<pair<addr_t,addr_t>,uint128>).second)}
each push_back(%vector<txin_t>, %txin_t) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {(-min(at(%map<pair<addr_t,addr_t>,uint128>, elem(%map<pair<addr_t,addr_t>,uint128>).first), elem(%map<pair<addr_t,addr_t>,uint128>).second) + elem(%map<pair<addr_t,addr_t>,uint128>).second)}
each %txout_t.address = elem(%map<pair<addr_t,addr_t>,uint128>).first.first ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {elem(%map<pair<addr_t,addr_t>,uint128>).second}
each %txout_t.contract = elem(%map<pair<addr_t,addr_t>,uint128>).first.second ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {elem(%map<pair<addr_t,addr_t>,uint128>).second}
each %txout_t.amount = elem(%map<pair<addr_t,addr_t>,uint128>).second ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {elem(%map<pair<addr_t,addr_t>,uint128>).second}
each push_back(%vector<txout_t>, %txout_t) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {elem(%map<pair<addr_t,addr_t>,uint128>).second}
each handle_implicit_deposit(%vector<txout_t>, %unordered_map<addr_t,uint128>, $0.id, {$0.deploy}, !{$1.height < @params.hardfork2_height}) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height}
each find(%balance_cache_t, $0.sender, ctor(addr_t)) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)}
each resize(ctor(string, what(caught(exception))), min(MAX_MESSAGE_LENGTH, size(ctor(string, what(caught(exception)))))) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.exec_result}
each %exec_error_t.message = resize(ctor(string, what(caught(exception))), min(MAX_MESSAGE_LENGTH, size(ctor(string, what(caught(exception)))))) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.exec_result}
each new(exec_result_t).error = %exec_error_t ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.exec_result}
each new(exec_result_t).did_fail = true ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.exec_result}
each new(exec_result_t).inputs = %vector<txin_t> ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.exec_result}
each new(exec_result_t).outputs = %vector<txout_t> ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.exec_result}
each commit(%shared_ptr<vm::StorageCache>) ;; {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)}
never break($0.inputs)
never break($0.outputs)
never break($0.deploy.depends)
never break(get_operations($0))
never break(%map<pair<addr_t,addr_t>,uint128>)
never break(%vector<txin_t>)
never break(%vector<txout_t>)
at ctor:balance_cache_t(@balance_table)
raise !{is_valid($0, @params)}
raise {is_valid($0, @params)} ;; !{$0.version == get_transaction_version(@params, $1.height)}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; {@params.max_tx_cost < $0.static_cost}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; {($0.max_fee_amount / 4294967296)}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; {count(@tx_index, $0.id, 4294967295)}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; {$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.sender}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; {empty($0.solutions)}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; !{has(%balance_cache_t, $0.sender)} | {find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.expires < $1.height}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; !{has(%balance_cache_t, elem($0.inputs).address)} | {find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) < elem($0.inputs).amount}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {has(%balance_cache_t, elem($0.inputs).address)} ;; !{find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) < elem($0.inputs).amount} ;; !{get_solution($0, elem($0.inputs).solution)}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {has(%balance_cache_t, elem($0.inputs).address)} ;; !{find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) < elem($0.inputs).amount} ;; {get_solution($0, elem($0.inputs).solution)} ;; !{get_contract_ex(elem($0.inputs).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))} ;; {(IS_EXEC & elem($0.inputs).flags)}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; !{elem($0.outputs).amount}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {elem($0.outputs).amount} ;; {at(%unordered_map<addr_t,uint128>, elem($0.outputs).contract) < elem($0.outputs).amount}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {$0.deploy} ;; !{is_valid($0.deploy)}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {$0.deploy} ;; {is_valid($0.deploy)} ;; {is<contract::Executable>($0.deploy)} ;; !{count(@tx_index, elem($0.deploy.depends).second, 4294967295)}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; !{elem(get_operations($0))} | !{is_valid(elem(get_operations($0)))}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {elem(get_operations($0))} ;; {is_valid(elem(get_operations($0)))} ;; !{get_contract_ex(elem(get_operations($0)).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))} | {$0.id == elem(get_operations($0)).address} | {ctor(addr_t) == elem(get_operations($0)).address} ;; !{$0.deploy} | !{ctor(addr_t) == elem(get_operations($0)).address} ;; !{$0.deploy} | !{$0.id == elem(get_operations($0)).address}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {elem(get_operations($0))} ;; {is_valid(elem(get_operations($0)))} ;; !{ctor(addr_t) == elem(get_operations($0)).address} | {$0.deploy} ;; !{$0.id == elem(get_operations($0)).address} | {$0.deploy} ;; {$0.id == elem(get_operations($0)).address} | {ctor(addr_t) == elem(get_operations($0)).address} | {get_contract_ex(elem(get_operations($0)).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))} ;; {$0.deploy} | {get_contract_ex(elem(get_operations($0)).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))} ;; {is<operation::Deposit>(elem(get_operations($0)))} ;; {at(%unordered_map<addr_t,uint128>, elem(get_operations($0)).currency) < elem(get_operations($0)).amount}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; {@params.max_tx_cost < (fold(ite((!{$0.deploy} || !{is<contract::Executable>($0.deploy)}), fold($0.static_cost, ite({(IS_EXEC & elem($0.inputs).flags)}, out(get_contract_ex#v, elem($0.inputs).address, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))), ~), $0.inputs), out(execute#v, $0, $1, %shared_ptr<operation::Execute>, $0.deploy, $0.id, %vector<txout_t>, %map<pair<addr_t,addr_t>,uint128>, %shared_ptr<vm::StorageCache>, %exec_error_t, true)), ite((!{elem(get_operations($0))} || !{is<operation::Execute>(elem(get_operations($0)))}), ite((!{$0.id == elem(get_operations($0)).address} && !{ctor(addr_t) == elem(get_operations($0)).address}), out(get_contract_ex#v, elem(get_operations($0)).address, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))), ~), out(execute#v, $0, $1, elem(get_operations($0)), ite((!{$0.id == elem(get_operations($0)).address} && !{ctor(addr_t) == elem(get_operations($0)).address}), get_contract_ex(elem(get_operations($0)).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))), $0.deploy), ite({ctor(addr_t) == elem(get_operations($0)).address}, $0.id, elem(get_operations($0)).address), %vector<txout_t>, %map<pair<addr_t,addr_t>,uint128>, %shared_ptr<vm::StorageCache>, %exec_error_t, false)), get_operations($0)) + ite({$0.exec_result}, 0, (total(%vector<txin_t>, calc_cost(elem(%vector<txin_t>), @params)) + total(%vector<txout_t>, calc_cost(elem(%vector<txout_t>), @params)))))}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{$0.expires < $1.height} ;; !{@params.max_tx_cost < (fold(ite((!{$0.deploy} || !{is<contract::Executable>($0.deploy)}), fold($0.static_cost, ite({(IS_EXEC & elem($0.inputs).flags)}, out(get_contract_ex#v, elem($0.inputs).address, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))), ~), $0.inputs), out(execute#v, $0, $1, %shared_ptr<operation::Execute>, $0.deploy, $0.id, %vector<txout_t>, %map<pair<addr_t,addr_t>,uint128>, %shared_ptr<vm::StorageCache>, %exec_error_t, true)), ite((!{elem(get_operations($0))} || !{is<operation::Execute>(elem(get_operations($0)))}), ite((!{$0.id == elem(get_operations($0)).address} && !{ctor(addr_t) == elem(get_operations($0)).address}), out(get_contract_ex#v, elem(get_operations($0)).address, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))), ~), out(execute#v, $0, $1, elem(get_operations($0)), ite((!{$0.id == elem(get_operations($0)).address} && !{ctor(addr_t) == elem(get_operations($0)).address}), get_contract_ex(elem(get_operations($0)).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))), $0.deploy), ite({ctor(addr_t) == elem(get_operations($0)).address}, $0.id, elem(get_operations($0)).address), %vector<txout_t>, %map<pair<addr_t,addr_t>,uint128>, %shared_ptr<vm::StorageCache>, %exec_error_t, false)), get_operations($0)) + ite({$0.exec_result}, 0, (total(%vector<txin_t>, calc_cost(elem(%vector<txin_t>), @params)) + total(%vector<txout_t>, calc_cost(elem(%vector<txout_t>), @params)))))} ;; {((fold(ite((!{$0.deploy} || !{is<contract::Executable>($0.deploy)}), fold($0.static_cost, ite({(IS_EXEC & elem($0.inputs).flags)}, out(get_contract_ex#v, elem($0.inputs).address, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))), ~), $0.inputs), out(execute#v, $0, $1, %shared_ptr<operation::Execute>, $0.deploy, $0.id, %vector<txout_t>, %map<pair<addr_t,addr_t>,uint128>, %shared_ptr<vm::StorageCache>, %exec_error_t, true)), ite((!{elem(get_operations($0))} || !{is<operation::Execute>(elem(get_operations($0)))}), ite((!{$0.id == elem(get_operations($0)).address} && !{ctor(addr_t) == elem(get_operations($0)).address}), out(get_contract_ex#v, elem(get_operations($0)).address, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))), ~), out(execute#v, $0, $1, elem(get_operations($0)), ite((!{$0.id == elem(get_operations($0)).address} && !{ctor(addr_t) == elem(get_operations($0)).address}), get_contract_ex(elem(get_operations($0)).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))), $0.deploy), ite({ctor(addr_t) == elem(get_operations($0)).address}, $0.id, elem(get_operations($0)).address), %vector<txout_t>, %map<pair<addr_t,addr_t>,uint128>, %shared_ptr<vm::StorageCache>, %exec_error_t, false)), get_operations($0)) + ite({$0.exec_result}, 0, (total(%vector<txin_t>, calc_cost(elem(%vector<txin_t>), @params)) + total(%vector<txout_t>, calc_cost(elem(%vector<txout_t>), @params))))) / 4294967296)}
raise {is_valid($0, @params)} ;; {$0.version == get_transaction_version(@params, $1.height)} ;; !{@params.max_tx_cost < $0.static_cost} ;; !{($0.max_fee_amount / 4294967296)} ;; !{count(@tx_index, $0.id, 4294967295)} ;; !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; {$0.sender} ;; !{empty($0.solutions)} ;; {has(%balance_cache_t, $0.sender)} ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)} ;; !{has(%balance_cache_t, $0.sender)} | {find(%balance_cache_t, $0.sender, ctor(addr_t)) < (-cost_to_fee($0.static_cost, $0.fee_ratio) + min($0.max_fee_amount, cost_to_fee(ite({#v}, maybe($0.static_cost), (fold(ite((!{$0.deploy} || !{is<contract::Executable>($0.deploy)}), fold($0.static_cost, ite({(IS_EXEC & elem($0.inputs).flags)}, out(get_contract_ex#v, elem($0.inputs).address, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))), ~), $0.inputs), out(execute#v, $0, $1, %shared_ptr<operation::Execute>, $0.deploy, $0.id, %vector<txout_t>, %map<pair<addr_t,addr_t>,uint128>, %shared_ptr<vm::StorageCache>, %exec_error_t, true)), ite((!{elem(get_operations($0))} || !{is<operation::Execute>(elem(get_operations($0)))}), ite((!{$0.id == elem(get_operations($0)).address} && !{ctor(addr_t) == elem(get_operations($0)).address}), out(get_contract_ex#v, elem(get_operations($0)).address, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))), ~), out(execute#v, $0, $1, elem(get_operations($0)), ite((!{$0.id == elem(get_operations($0)).address} && !{ctor(addr_t) == elem(get_operations($0)).address}), get_contract_ex(elem(get_operations($0)).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))), $0.deploy), ite({ctor(addr_t) == elem(get_operations($0)).address}, $0.id, elem(get_operations($0)).address), %vector<txout_t>, %map<pair<addr_t,addr_t>,uint128>, %shared_ptr<vm::StorageCache>, %exec_error_t, false)), get_operations($0)) + ite({$0.exec_result}, 0, (total(%vector<txin_t>, calc_cost(elem(%vector<txin_t>), @params)) + total(%vector<txout_t>, calc_cost(elem(%vector<txout_t>), @params)))))), $0.fee_ratio)))}
value fold($0.static_cost, ite({(IS_EXEC & elem($0.inputs).flags)}, out(get_contract_ex#v, elem($0.inputs).address, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))), ~), $0.inputs)
exit !{$0.max_fee_amount < cost_to_fee($0.static_cost, $0.fee_ratio)}
exit !{($0.max_fee_amount / 4294967296)}
exit !{@params.max_tx_cost < $0.static_cost}
exit !{count(@tx_index, $0.id, 4294967295)}
exit !{empty($0.solutions)}
exit !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < cost_to_fee($0.static_cost, $0.fee_ratio)}
exit {$0.sender}
exit {$0.version == get_transaction_version(@params, $1.height)}
exit {did %shared_ptr<contract::PubKey>.address = $0.sender}
exit {did find(%balance_cache_t, $0.sender, ctor(addr_t)) = (-cost_to_fee($0.static_cost, $0.fee_ratio) + find(%balance_cache_t, $0.sender, ctor(addr_t)))}
exit {did find(%balance_cache_t, $0.sender, ctor(addr_t))}
exit {did validate(%shared_ptr<contract::PubKey>, at($0.solutions, 0), $0.id, $0.version)}
exit {has(%balance_cache_t, $0.sender)}
exit {is_valid($0, @params)}
exit !{$0.exec_result} | {ret = 0}
exit {$0.exec_result} | {ret = new(exec_result_t)}
exit !{$0.exec_result} | {ret = 0}
exit {$0.exec_result} | {did new(exec_result_t).total_cost = u32(…)}
exit {$0.exec_result} | {did new(exec_result_t).total_fee = u32(…)}
exit {$0.exec_result} | {ret = new(exec_result_t)}
exit !{$0.exec_result.did_fail} | !{$0.exec_result} | {$0.exec_result.error}
exit !{$0.exec_result.did_fail} | !{$0.exec_result} | {empty($0.exec_result.inputs)}
exit !{$0.exec_result.did_fail} | !{$0.exec_result} | {empty($0.exec_result.outputs)}
exit !{$0.exec_result.error} | !{$0.exec_result} | {$0.exec_result.error.address == %exec_error_t.address}
exit !{$0.exec_result.error} | !{$0.exec_result} | {$0.exec_result.error.code == %exec_error_t.code}
exit !{$0.exec_result.error} | !{$0.exec_result} | {$0.exec_result.error.operation == %exec_error_t.operation}
exit !{$0.exec_result} | {$0.exec_result.did_fail} | {at($0.exec_result.inputs, idx(%vector<txin_t>)).address == elem(%vector<txin_t>).address}
exit !{$0.exec_result} | {$0.exec_result.did_fail} | {at($0.exec_result.inputs, idx(%vector<txin_t>)).amount == elem(%vector<txin_t>).amount}
exit !{$0.exec_result} | {$0.exec_result.did_fail} | {at($0.exec_result.inputs, idx(%vector<txin_t>)).contract == elem(%vector<txin_t>).contract}
exit !{$0.exec_result} | {$0.exec_result.did_fail} | {at($0.exec_result.inputs, idx(%vector<txin_t>)).flags == elem(%vector<txin_t>).flags}
exit !{$0.exec_result} | {$0.exec_result.did_fail} | {at($0.exec_result.inputs, idx(%vector<txin_t>)).memo == elem(%vector<txin_t>).memo}
exit !{$0.exec_result} | {$0.exec_result.did_fail} | {at($0.exec_result.outputs, idx(%vector<txout_t>)).address == elem(%vector<txout_t>).address}
exit !{$0.exec_result} | {$0.exec_result.did_fail} | {at($0.exec_result.outputs, idx(%vector<txout_t>)).amount == elem(%vector<txout_t>).amount}
exit !{$0.exec_result} | {$0.exec_result.did_fail} | {at($0.exec_result.outputs, idx(%vector<txout_t>)).contract == elem(%vector<txout_t>).contract}
exit !{$0.exec_result} | {$0.exec_result.did_fail} | {at($0.exec_result.outputs, idx(%vector<txout_t>)).memo == elem(%vector<txout_t>).memo}
exit !{$0.exec_result} | {$0.exec_result.did_fail} | {size($0.exec_result.inputs) == size(%vector<txin_t>)}
exit !{$0.exec_result} | {$0.exec_result.did_fail} | {size($0.exec_result.outputs) == size(%vector<txout_t>)}
exit !{$0.exec_result} | {$0.exec_result.total_cost == (… + ite({$0.exec_result}, 0, (total(%vector<txin_t>, calc_cost(elem(%vector<txin_t>), @params)) + total(%vector<txout_t>, calc_cost(elem(%vector<txout_t>), @params)))))} | {$0.exec_result.total_cost == …}
exit !{$0.exec_result} | {$0.exec_result.total_fee == …} | {$0.exec_result.total_fee == min($0.max_fee_amount, cost_to_fee(…, $0.fee_ratio))}
at commit(%shared_ptr<vm::StorageCache>) ;; !{$0.expires < $1.height}
at commit(%shared_ptr<vm::StorageCache>) ;; !{$0.max_fee_amount < cost_to_fee(…, $0.fee_ratio)}
at commit(%shared_ptr<vm::StorageCache>) ;; !{((… + ite({$0.exec_result}, 0, (total(%vector<txin_t>, calc_cost(elem(%vector<txin_t>), @params)) + total(%vector<txout_t>, calc_cost(elem(%vector<txout_t>), @params))))) / 4294967296)}
at commit(%shared_ptr<vm::StorageCache>) ;; !{@params.max_tx_cost < (… + ite({$0.exec_result}, 0, (total(%vector<txin_t>, calc_cost(elem(%vector<txin_t>), @params)) + total(%vector<txout_t>, calc_cost(elem(%vector<txout_t>), @params)))))}
at commit(%shared_ptr<vm::StorageCache>) ;; !{at(%unordered_map<addr_t,uint128>, elem($0.outputs).contract) < elem($0.outputs).amount}
at commit(%shared_ptr<vm::StorageCache>) ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < (-cost_to_fee($0.static_cost, $0.fee_ratio) + min($0.max_fee_amount, cost_to_fee(…, $0.fee_ratio)))}
at commit(%shared_ptr<vm::StorageCache>) ;; !{find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) < elem($0.inputs).amount}
at commit(%shared_ptr<vm::StorageCache>) ;; {did %exec_error_t.address = 0}
at commit(%shared_ptr<vm::StorageCache>) ;; {did %exec_error_t.address = 4294967295}
at commit(%shared_ptr<vm::StorageCache>) ;; {did %exec_error_t.operation = 0}
at commit(%shared_ptr<vm::StorageCache>) ;; {did %exec_error_t.operation = 4294967295}
at commit(%shared_ptr<vm::StorageCache>) ;; {did at(%unordered_map<addr_t,uint128>, elem($0.inputs).contract) = (at(%unordered_map<addr_t,uint128>, elem($0.inputs).contract) + elem($0.inputs).amount)}
at commit(%shared_ptr<vm::StorageCache>) ;; {did find(%balance_cache_t, $0.sender, ctor(addr_t)) = (-min($0.max_fee_amount, cost_to_fee(…, $0.fee_ratio)) + cost_to_fee($0.static_cost, $0.fee_ratio) + find(%balance_cache_t, $0.sender, ctor(addr_t)))}
at commit(%shared_ptr<vm::StorageCache>) ;; {did find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) = (-elem($0.inputs).amount + find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract))}
at commit(%shared_ptr<vm::StorageCache>) ;; {did find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract)}
at commit(%shared_ptr<vm::StorageCache>) ;; {did handle_implicit_deposit(%vector<txout_t>, %unordered_map<addr_t,uint128>, $0.id, {$0.deploy}, !{$1.height < @params.hardfork2_height})}
at commit(%shared_ptr<vm::StorageCache>) ;; {did validate(ite({(IS_EXEC & elem($0.inputs).flags)}, get_contract_ex(elem($0.inputs).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))), %shared_ptr<contract::PubKey>), get_solution($0, elem($0.inputs).solution), $0.id, $0.version)}
at commit(%shared_ptr<vm::StorageCache>) ;; {elem($0.outputs).amount}
at commit(%shared_ptr<vm::StorageCache>) ;; {elem(get_operations($0))}
at commit(%shared_ptr<vm::StorageCache>) ;; {get_solution($0, elem($0.inputs).solution)}
at commit(%shared_ptr<vm::StorageCache>) ;; {has(%balance_cache_t, elem($0.inputs).address)}
at commit(%shared_ptr<vm::StorageCache>) ;; {is_valid(elem(get_operations($0)))}
at commit(%shared_ptr<vm::StorageCache>) ;; !{$0.deploy} | {is_valid($0.deploy)}
at commit(%shared_ptr<vm::StorageCache>) ;; !{$0.exec_result.did_fail} | !{$0.exec_result}
at commit(%shared_ptr<vm::StorageCache>) ;; !{$0.exec_result} | {$0.exec_result.total_cost == (… + ite({$0.exec_result}, 0, (total(%vector<txin_t>, calc_cost(elem(%vector<txin_t>), @params)) + total(%vector<txout_t>, calc_cost(elem(%vector<txout_t>), @params)))))}
at commit(%shared_ptr<vm::StorageCache>) ;; !{$0.exec_result} | {$0.exec_result.total_fee == min($0.max_fee_amount, cost_to_fee(…, $0.fee_ratio))}
at commit(%shared_ptr<vm::StorageCache>) ;; !{(-min(at(%map<pair<addr_t,addr_t>,uint128>, elem(%map<pair<addr_t,addr_t>,uint128>).first), elem(%map<pair<addr_t,addr_t>,uint128>).second) + elem(%map<pair<addr_t,addr_t>,uint128>).second)} | {did %txin_t.address = elem(%map<pair<addr_t,addr_t>,uint128>).first.first}
at commit(%shared_ptr<vm::StorageCache>) ;; !{(-min(at(%map<pair<addr_t,addr_t>,uint128>, elem(%map<pair<addr_t,addr_t>,uint128>).first), elem(%map<pair<addr_t,addr_t>,uint128>).second) + elem(%map<pair<addr_t,addr_t>,uint128>).second)} | {did %txin_t.amount = (-min(at(%map<pair<addr_t,addr_t>,uint128>, elem(%map<pair<addr_t,addr_t>,uint128>).first), elem(%map<pair<addr_t,addr_t>,uint128>).second) + elem(%map<pair<addr_t,addr_t>,uint128>).second)}
at commit(%shared_ptr<vm::StorageCache>) ;; !{(-min(at(%map<pair<addr_t,addr_t>,uint128>, elem(%map<pair<addr_t,addr_t>,uint128>).first), elem(%map<pair<addr_t,addr_t>,uint128>).second) + elem(%map<pair<addr_t,addr_t>,uint128>).second)} | {did %txin_t.contract = elem(%map<pair<addr_t,addr_t>,uint128>).first.second}
at commit(%shared_ptr<vm::StorageCache>) ;; !{(-min(at(%map<pair<addr_t,addr_t>,uint128>, elem(%map<pair<addr_t,addr_t>,uint128>).first), elem(%map<pair<addr_t,addr_t>,uint128>).second) + elem(%map<pair<addr_t,addr_t>,uint128>).second)} | {did push_back(%vector<txin_t>, %txin_t)}
at commit(%shared_ptr<vm::StorageCache>) ;; !{(IS_EXEC & elem($0.inputs).flags)} | {did get_contract_ex(elem($0.inputs).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))}
at commit(%shared_ptr<vm::StorageCache>) ;; !{(IS_EXEC & elem($0.inputs).flags)} | {get_contract_ex(elem($0.inputs).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))}
at commit(%shared_ptr<vm::StorageCache>) ;; !{at(%unordered_map<addr_t,uint128>, elem(get_operations($0)).currency) < elem(get_operations($0)).amount} | !{is<operation::Deposit>(elem(get_operations($0)))}
at commit(%shared_ptr<vm::StorageCache>) ;; !{ctor(addr_t) == elem(get_operations($0)).address} | {$0.deploy}
at commit(%shared_ptr<vm::StorageCache>) ;; !{elem(%map<pair<addr_t,addr_t>,uint128>).second} | {did %txout_t.address = elem(%map<pair<addr_t,addr_t>,uint128>).first.first}
at commit(%shared_ptr<vm::StorageCache>) ;; !{elem(%map<pair<addr_t,addr_t>,uint128>).second} | {did %txout_t.amount = elem(%map<pair<addr_t,addr_t>,uint128>).second}
at commit(%shared_ptr<vm::StorageCache>) ;; !{elem(%map<pair<addr_t,addr_t>,uint128>).second} | {did %txout_t.contract = elem(%map<pair<addr_t,addr_t>,uint128>).first.second}
at commit(%shared_ptr<vm::StorageCache>) ;; !{elem(%map<pair<addr_t,addr_t>,uint128>).second} | {did push_back(%vector<txout_t>, %txout_t)}
at commit(%shared_ptr<vm::StorageCache>) ;; !{is<operation::Deposit>(elem(get_operations($0)))} | {did at(%map<pair<addr_t,addr_t>,uint128>, pair(ite({ctor(addr_t) == elem(get_operations($0)).address}, $0.id, elem(get_operations($0)).address), elem(get_operations($0)).currency)) = (at(%map<pair<addr_t,addr_t>,uint128>, pair(ite({ctor(addr_t) == elem(get_operations($0)).address}, $0.id, elem(get_operations($0)).address), elem(get_operations($0)).currency)) + elem(get_operations($0)).amount)}
at commit(%shared_ptr<vm::StorageCache>) ;; !{is<operation::Execute>(elem(get_operations($0)))} | {did execute($0, $1, elem(get_operations($0)), ite((!{$0.id == elem(get_operations($0)).address} && !{ctor(addr_t) == elem(get_operations($0)).address}), get_contract_ex(elem(get_operations($0)).address, …, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))), $0.deploy), ite({ctor(addr_t) == elem(get_operations($0)).address}, $0.id, elem(get_operations($0)).address), %vector<txout_t>, %map<pair<addr_t,addr_t>,uint128>, %shared_ptr<vm::StorageCache>, …, %exec_error_t, false)}
at commit(%shared_ptr<vm::StorageCache>) ;; {$0.deploy} | {get_contract_ex(elem(get_operations($0)).address, …, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))}
at commit(%shared_ptr<vm::StorageCache>) ;; {$0.exec_result} | {did new(exec_result_t).inputs = %vector<txin_t>}
at commit(%shared_ptr<vm::StorageCache>) ;; {$0.exec_result} | {did new(exec_result_t).outputs = %vector<txout_t>}
at commit(%shared_ptr<vm::StorageCache>) ;; {(IS_EXEC & elem($0.inputs).flags)} | {did %shared_ptr<contract::PubKey>.address = elem($0.inputs).address}
at commit(%shared_ptr<vm::StorageCache>) ;; {did %exec_error_t.address = (%exec_error_t.address + 1)} | {empty($0.inputs)}
at commit(%shared_ptr<vm::StorageCache>) ;; {did %exec_error_t.address = (%exec_error_t.address + 1)} | {empty($0.outputs)}
at commit(%shared_ptr<vm::StorageCache>) ;; {did %exec_error_t.operation = (%exec_error_t.operation + 1)} | {empty(get_operations($0))}
at commit(%shared_ptr<vm::StorageCache>) ;; !{$0.deploy} | !{is<contract::Executable>($0.deploy)} | {count(@tx_index, elem($0.deploy.depends).second, 4294967295)}
at commit(%shared_ptr<vm::StorageCache>) ;; !{$0.deploy} | !{is<contract::Executable>($0.deploy)} | {did %shared_ptr<operation::Execute>.args = $0.deploy.init_args}
at commit(%shared_ptr<vm::StorageCache>) ;; !{$0.deploy} | !{is<contract::Executable>($0.deploy)} | {did %shared_ptr<operation::Execute>.method = $0.deploy.init_method}
at commit(%shared_ptr<vm::StorageCache>) ;; !{$0.deploy} | !{is<contract::Executable>($0.deploy)} | {did execute($0, $1, %shared_ptr<operation::Execute>, $0.deploy, $0.id, %vector<txout_t>, %map<pair<addr_t,addr_t>,uint128>, %shared_ptr<vm::StorageCache>, …, %exec_error_t, true)}
at commit(%shared_ptr<vm::StorageCache>) ;; !{$0.id == elem(get_operations($0)).address} | {$0.deploy} | {ctor(addr_t) == elem(get_operations($0)).address}
at commit(%shared_ptr<vm::StorageCache>) ;; {$0.id == elem(get_operations($0)).address} | {ctor(addr_t) == elem(get_operations($0)).address} | {did get_contract_ex(elem(get_operations($0)).address, …, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))}
at commit(%shared_ptr<vm::StorageCache>) ;; {$0.id == elem(get_operations($0)).address} | {ctor(addr_t) == elem(get_operations($0)).address} | {get_contract_ex(elem(get_operations($0)).address, …, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))}
at %shared_ptr<contract::PubKey>.address = $0.sender
at validate(%shared_ptr<contract::PubKey>, at($0.solutions, 0), $0.id, $0.version)
at find(%balance_cache_t, $0.sender, ctor(addr_t))
at find(%balance_cache_t, $0.sender, ctor(addr_t)) = (-cost_to_fee($0.static_cost, $0.fee_ratio) + find(%balance_cache_t, $0.sender, ctor(addr_t)))
at find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) ;; !{$0.expires < $1.height}
at %shared_ptr<contract::PubKey>.address = elem($0.inputs).address ;; !{$0.expires < $1.height} ;; {has(%balance_cache_t, elem($0.inputs).address)} ;; !{find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) < elem($0.inputs).amount} ;; {get_solution($0, elem($0.inputs).solution)} ;; !{(IS_EXEC & elem($0.inputs).flags)}
at validate(ite({(IS_EXEC & elem($0.inputs).flags)}, get_contract_ex(elem($0.inputs).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio))), %shared_ptr<contract::PubKey>), get_solution($0, elem($0.inputs).solution), $0.id, $0.version) ;; !{$0.expires < $1.height} ;; {has(%balance_cache_t, elem($0.inputs).address)} ;; !{find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) < elem($0.inputs).amount} ;; {get_solution($0, elem($0.inputs).solution)} ;; !{(IS_EXEC & elem($0.inputs).flags)} | {get_contract_ex(elem($0.inputs).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))}
at find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) = (-elem($0.inputs).amount + find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract)) ;; !{$0.expires < $1.height} ;; {has(%balance_cache_t, elem($0.inputs).address)} ;; !{find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) < elem($0.inputs).amount} ;; {get_solution($0, elem($0.inputs).solution)} ;; !{(IS_EXEC & elem($0.inputs).flags)} | {get_contract_ex(elem($0.inputs).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))}
at at(%unordered_map<addr_t,uint128>, elem($0.inputs).contract) = (at(%unordered_map<addr_t,uint128>, elem($0.inputs).contract) + elem($0.inputs).amount) ;; !{$0.expires < $1.height} ;; {has(%balance_cache_t, elem($0.inputs).address)} ;; !{find(%balance_cache_t, elem($0.inputs).address, elem($0.inputs).contract) < elem($0.inputs).amount} ;; {get_solution($0, elem($0.inputs).solution)} ;; !{(IS_EXEC & elem($0.inputs).flags)} | {get_contract_ex(elem($0.inputs).address, &, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))}
at %shared_ptr<operation::Execute>.method = $0.deploy.init_method ;; !{$0.expires < $1.height} ;; {$0.deploy} ;; {is_valid($0.deploy)} ;; {is<contract::Executable>($0.deploy)} ;; {$0.deploy}
at %shared_ptr<operation::Execute>.args = $0.deploy.init_args ;; !{$0.expires < $1.height} ;; {$0.deploy} ;; {is_valid($0.deploy)} ;; {is<contract::Executable>($0.deploy)} ;; {$0.deploy}
at at(%map<pair<addr_t,addr_t>,uint128>, pair(ite({ctor(addr_t) == elem(get_operations($0)).address}, $0.id, elem(get_operations($0)).address), elem(get_operations($0)).currency)) = (at(%map<pair<addr_t,addr_t>,uint128>, pair(ite({ctor(addr_t) == elem(get_operations($0)).address}, $0.id, elem(get_operations($0)).address), elem(get_operations($0)).currency)) + elem(get_operations($0)).amount) ;; !{$0.expires < $1.height} ;; {elem(get_operations($0))} ;; {is_valid(elem(get_operations($0)))} ;; !{ctor(addr_t) == elem(get_operations($0)).address} | {$0.deploy} ;; !{$0.id == elem(get_operations($0)).address} | {$0.deploy} | {ctor(addr_t) == elem(get_operations($0)).address} ;; {$0.id == elem(get_operations($0)).address} | {ctor(addr_t) == elem(get_operations($0)).address} | {get_contract_ex(elem(get_operations($0)).address, …, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))} ;; {$0.deploy} | {get_contract_ex(elem(get_operations($0)).address, …, min(@params.max_tx_cost, fee_to_cost($0.max_fee_amount, $0.fee_ratio)))} ;; {is<operation::Deposit>(elem(get_operations($0)))} ;; {elem(get_operations($0))} ;; !{at(%unordered_map<addr_t,uint128>, elem(get_operations($0)).currency) < elem(get_operations($0)).amount}
at %txin_t.address = elem(%map<pair<addr_t,addr_t>,uint128>).first.first ;; !{$0.expires < $1.height} ;; {(-min(at(%map<pair<addr_t,addr_t>,uint128>, elem(%map<pair<addr_t,addr_t>,uint128>).first), elem(%map<pair<addr_t,addr_t>,uint128>).second) + elem(%map<pair<addr_t,addr_t>,uint128>).second)}
at %txin_t.contract = elem(%map<pair<addr_t,addr_t>,uint128>).first.second ;; !{$0.expires < $1.height} ;; {(-min(at(%map<pair<addr_t,addr_t>,uint128>, elem(%map<pair<addr_t,addr_t>,uint128>).first), elem(%map<pair<addr_t,addr_t>,uint128>).second) + elem(%map<pair<addr_t,addr_t>,uint128>).second)}
at %txin_t.amount = (-min(at(%map<pair<addr_t,addr_t>,uint128>, elem(%map<pair<addr_t,addr_t>,uint128>).first), elem(%map<pair<addr_t,addr_t>,uint128>).second) + elem(%map<pair<addr_t,addr_t>,uint128>).second) ;; !{$0.expires < $1.height} ;; {(-min(at(%map<pair<addr_t,addr_t>,uint128>, elem(%map<pair<addr_t,addr_t>,uint128>).first), elem(%map<pair<addr_t,addr_t>,uint128>).second) + elem(%map<pair<addr_t,addr_t>,uint128>).second)}
at push_back(%vector<txin_t>, %txin_t) ;; !{$0.expires < $1.height} ;; {(-min(at(%map<pair<addr_t,addr_t>,uint128>, elem(%map<pair<addr_t,addr_t>,uint128>).first), elem(%map<pair<addr_t,addr_t>,uint128>).second) + elem(%map<pair<addr_t,addr_t>,uint128>).second)}
at %txout_t.address = elem(%map<pair<addr_t,addr_t>,uint128>).first.first ;; !{$0.expires < $1.height} ;; {elem(%map<pair<addr_t,addr_t>,uint128>).second}
at %txout_t.contract = elem(%map<pair<addr_t,addr_t>,uint128>).first.second ;; !{$0.expires < $1.height} ;; {elem(%map<pair<addr_t,addr_t>,uint128>).second}
at %txout_t.amount = elem(%map<pair<addr_t,addr_t>,uint128>).second ;; !{$0.expires < $1.height} ;; {elem(%map<pair<addr_t,addr_t>,uint128>).second}
at push_back(%vector<txout_t>, %txout_t) ;; !{$0.expires < $1.height} ;; {elem(%map<pair<addr_t,addr_t>,uint128>).second}
at handle_implicit_deposit(%vector<txout_t>, %unordered_map<addr_t,uint128>, $0.id, {$0.deploy}, !{$1.height < @params.hardfork2_height}) ;; !{$0.expires < $1.height}
at find(%balance_cache_t, $0.sender, ctor(addr_t)) = (-min($0.max_fee_amount, cost_to_fee(…, $0.fee_ratio)) + cost_to_fee($0.static_cost, $0.fee_ratio) + find(%balance_cache_t, $0.sender, ctor(addr_t))) ;; !{find(%balance_cache_t, $0.sender, ctor(addr_t)) < (-cost_to_fee($0.static_cost, $0.fee_ratio) + min($0.max_fee_amount, cost_to_fee(…, $0.fee_ratio)))}
at new(exec_result_t).total_cost = u32(…) ;; !{$0.exec_result}
at new(exec_result_t).total_fee = u32(…) ;; !{$0.exec_result}
at new(exec_result_t).error = %exec_error_t ;; !{$0.exec_result}
at new(exec_result_t).did_fail = true ;; !{$0.exec_result}
at new(exec_result_t).inputs = %vector<txin_t> ;; !{$0.exec_result}
at new(exec_result_t).outputs = %vector<txout_t> ;; !{$0.exec_result}
at commit(%shared_ptr<vm::StorageCache>)
