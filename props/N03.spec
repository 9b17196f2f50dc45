tus src/Transaction.cpp src/exec_result_t.cpp src/exec_error_t.cpp src/Contract.cpp src/Operation.cpp src/Solution.cpp src/contract/Executable.cpp src/contract/PubKey.cpp src/contract/MultiSig.cpp src/contract/Data.cpp src/contract/WebData.cpp src/contract/Binary.cpp src/contract/TokenBase.cpp src/operation/Execute.cpp src/operation/Deposit.cpp src/solution/MultiSig.cpp src/solution/PubKey.cpp
fn mmx::Transaction::is_valid
each insert(%set<hash_t>, calc_hash(elem(@solutions))) ;; {$0} ;; {@version}
each at(%vector<bool>, 0) = true ;; {$0} ;; {@version} ;; {@sender} ;; !{empty(%vector<bool>)}
each at(%vector<bool>, elem(@inputs).solution) = true ;; {$0} ;; {@version} ;; {elem(@inputs).solution < size(%vector<bool>)}
each at(%vector<bool>, elem(@execute).solution) = true ;; {$0} ;; {@version} ;; {is<operation::Execute>(elem(@execute))} ;; {elem(@execute)} ;; {elem(@execute).user} ;; {elem(@execute).solution < size(%vector<bool>)}
false {$0} | {1 < @version} | !{@nonce} | !{1023 < @fee_ratio} | !{$0.network == @network} | {MAX_SOLUTIONS < size(@solutions)} | {@exec_result} | !{@static_cost == calc_cost($0)} | !{@id == calc_hash(false)} | !{@content_hash == calc_hash(true)}
raise !{$0}
exit {$0}
true !{$0} | !{MAX_MEMO_SIZE < size(elem(@inputs).memo)} | !{elem(@inputs).memo}
true !{$0} | !{MAX_MEMO_SIZE < size(elem(@outputs).memo)} | !{elem(@outputs).memo}
true !{$0} | {elem(@execute)}
true !{$0} | {is_valid(elem(@execute))}
true !{$0} | {elem(@solutions)}
true !{$0} | {is_valid(elem(@solutions))}
true !{$0} | !{@version} | {inserted(%set<hash_t>, calc_hash(elem(@solutions)))}
true !{$0} | !{@version} | {elem(%vector<bool>)}
true !{1 < @version}
true {@nonce}
true {1023 < @fee_ratio}
true {$0.network == @network}
true !{MAX_SOLUTIONS < size(@solutions)}
true !{@exec_result} | {is_valid(@exec_result)}
true {@static_cost == calc_cost($0)}
true {@id == calc_hash(false)}
true {@content_hash == calc_hash(true)}
at insert(%set<hash_t>, calc_hash(elem(@solutions))) ;; {@version} ;; {elem(@execute)} ;; {elem(@solutions)} ;; {is_valid(elem(@execute))} ;; {is_valid(elem(@solutions))} ;; !{MAX_MEMO_SIZE < size(elem(@inputs).memo)} | !{elem(@inputs).memo} ;; !{MAX_MEMO_SIZE < size(elem(@outputs).memo)} | !{elem(@outputs).memo}
at at(%vector<bool>, 0) = true ;; {@version} ;; {@sender} ;; !{empty(%vector<bool>)} ;; {elem(@execute)} ;; {elem(@solutions)} ;; {inserted(%set<hash_t>, calc_hash(elem(@solutions)))} ;; {is_valid(elem(@execute))} ;; {is_valid(elem(@solutions))} ;; !{MAX_MEMO_SIZE < size(elem(@inputs).memo)} | !{elem(@inputs).memo} ;; !{MAX_MEMO_SIZE < size(elem(@outputs).memo)} | !{elem(@outputs).memo}
at at(%vector<bool>, elem(@inputs).solution) = true ;; {@version} ;; {elem(@inputs).solution < size(%vector<bool>)} ;; {elem(@execute)} ;; {elem(@solutions)} ;; {inserted(%set<hash_t>, calc_hash(elem(@solutions)))} ;; {is_valid(elem(@execute))} ;; {is_valid(elem(@solutions))} ;; !{MAX_MEMO_SIZE < size(elem(@inputs).memo)} | !{elem(@inputs).memo} ;; !{MAX_MEMO_SIZE < size(elem(@outputs).memo)} | !{elem(@outputs).memo}
at at(%vector<bool>, elem(@execute).solution) = true ;; {@version} ;; {is<operation::Execute>(elem(@execute))} ;; {elem(@execute)} ;; {elem(@execute).user} ;; {elem(@execute).solution < size(%vector<bool>)} ;; {elem(@solutions)} ;; {inserted(%set<hash_t>, calc_hash(elem(@solutions)))} ;; {is_valid(elem(@execute))} ;; {is_valid(elem(@solutions))} ;; !{MAX_MEMO_SIZE < size(elem(@inputs).memo)} | !{elem(@inputs).memo} ;; !{MAX_MEMO_SIZE < size(elem(@outputs).memo)} | !{elem(@outputs).memo}
never break(@inputs) ;; {$0} ;; {elem(@inputs).memo} ;; {MAX_MEMO_SIZE < size(elem(@inputs).memo)}
never break(@outputs) ;; {$0} ;; {elem(@outputs).memo} ;; {MAX_MEMO_SIZE < size(elem(@outputs).memo)}
never break(@execute) ;; {$0} ;; !{elem(@execute)} | !{is_valid(elem(@execute))}
never break(@solutions) ;; {$0}
never break(%vector<bool>) ;; {$0} ;; {@version} ;; !{elem(%vector<bool>)}
fn mmx::Transaction::calc_cost
never break(@inputs)
never break(@outputs)
never break(@execute)
never break(@solutions)
raise !{$0}
raise {$0} ;; {(($0.min_txfee + ($0.min_txfee_exec * size(@execute)) + ite({@deploy}, ($0.min_txfee_deploy + calc_cost(@deploy, $0)), 0) + ite({@exec_result}, calc_cost(@exec_result, $0), 0) + total(@execute, ite({elem(@execute)}, calc_cost(elem(@execute), $0), 0)) + total(@inputs, calc_cost(elem(@inputs), $0)) + total(@outputs, calc_cost(elem(@outputs), $0)) + total(@solutions, ite({elem(@solutions)}, calc_cost(elem(@solutions), $0), 0))) >> 64)}
exit !{(($0.min_txfee + ($0.min_txfee_exec * size(@execute)) + ite({@deploy}, ($0.min_txfee_deploy + calc_cost(@deploy, $0)), 0) + ite({@exec_result}, calc_cost(@exec_result, $0), 0) + total(@execute, ite({elem(@execute)}, calc_cost(elem(@execute), $0), 0)) + total(@inputs, calc_cost(elem(@inputs), $0)) + total(@outputs, calc_cost(elem(@outputs), $0)) + total(@solutions, ite({elem(@solutions)}, calc_cost(elem(@solutions), $0), 0))) >> 64)}
exit {$0}
exit {ret = ($0.min_txfee + ($0.min_txfee_exec * size(@execute)) + ite({@deploy}, ($0.min_txfee_deploy + calc_cost(@deploy, $0)), 0) + ite({@exec_result}, calc_cost(@exec_result, $0), 0) + total(@execute, ite({elem(@execute)}, calc_cost(elem(@execute), $0), 0)) + total(@inputs, calc_cost(elem(@inputs), $0)) + total(@outputs, calc_cost(elem(@outputs), $0)) + total(@solutions, ite({elem(@solutions)}, calc_cost(elem(@solutions), $0), 0)))}
fn mmx::Transaction::get_solution
never throw …
exit !{$0 < size(@solutions)} | {ret = at(@solutions, $0)}
exit {$0 < size(@solutions)} | {ret = 0}
exit !{$0 < size(@solutions)} | {ret = at(@solutions, $0)}
exit {$0 < size(@solutions)} | {ret = 0}
fn mmx::Transaction::get_operations
never throw …
exit {ret = @execute}
fn mmx::exec_result_t::is_valid
false {elem(@inputs).memo} | {elem(@outputs).memo} | {@error}
false {MAX_MEMO_SIZE < size(elem(@inputs).memo)} | {MAX_MEMO_SIZE < size(elem(@outputs).memo)} | {@error}
never throw …
true !{MAX_MEMO_SIZE < size(elem(@inputs).memo)} | !{elem(@inputs).memo}
true !{MAX_MEMO_SIZE < size(elem(@outputs).memo)} | !{elem(@outputs).memo}
true !{@error} | {is_valid(@error)}
never break(@inputs) ;; {elem(@inputs).memo} ;; {MAX_MEMO_SIZE < size(elem(@inputs).memo)}
never break(@outputs) ;; {elem(@outputs).memo} ;; {MAX_MEMO_SIZE < size(elem(@outputs).memo)}
fn mmx::exec_result_t::calc_cost
never break(@inputs)
never break(@outputs)
never throw …
exit {ret = (total(@inputs, calc_cost(elem(@inputs), $0)) + total(@outputs, calc_cost(elem(@outputs), $0)))}
fn mmx::exec_error_t::is_valid
false {MAX_MESSAGE_LENGTH < size(@message)}
never throw …
true !{MAX_MESSAGE_LENGTH < size(@message)}
fn mmx::Contract::is_valid
false {@version}
never throw …
true !{@version}
fn mmx::Contract::calc_cost
never throw …
exit {ret = ($0.min_txfee_byte * num_bytes())}
fn mmx::Operation::is_valid
false {@version}
never throw …
true !{@version}
fn mmx::Operation::calc_cost
never throw …
exit {ret = 0}
fn mmx::Solution::is_valid
false {@version}
never throw …
true !{@version}
fn mmx::contract::Executable::is_valid
false !{is_json(elem(@init_args))} | {64 < size(elem(@depends).first)} | !{is_valid()} | {@binary == ctor(addr_t)}
never throw …
true {is_json(elem(@init_args))}
true !{64 < size(elem(@depends).first)}
true {is_valid()}
true !{@binary == ctor(addr_t)}
never break(@init_args) ;; !{is_json(elem(@init_args))}
never break(@depends) ;; {64 < size(elem(@depends).first)}
fn mmx::contract::Executable::calc_cost
never throw …
exit {ret = (($0.min_txfee_depend * size(@depends)) + calc_cost($0))}
fn mmx::contract::PubKey::is_valid
false !{is_valid()} | {@address == ctor(addr_t)}
never throw …
true {is_valid()}
true !{@address == ctor(addr_t)}
fn mmx::contract::MultiSig::is_valid
false !{is_valid()} | !{@num_required} | {size(@owners) < @num_required}
never throw …
true {is_valid()}
true {@num_required}
true !{size(@owners) < @num_required}
fn mmx::contract::Data::is_valid
false !{is_valid()} | !{is_json(@value)}
never throw …
true {is_valid()}
true {is_json(@value)}
fn mmx::contract::WebData::is_valid
false !{is_valid()} | {256 < size(@mime_type)}
never throw …
true {is_valid()}
true !{256 < size(@mime_type)}
fn mmx::contract::Binary::is_valid
false {elem(@methods).second.is_const} | {elem(@methods).second.is_init} | !{is_valid()}
never throw …
true !{elem(@methods).second.is_const} | !{elem(@methods).second.is_payable}
true !{elem(@methods).second.is_const} | !{elem(@methods).second.is_init} | {elem(@methods).second.is_payable}
true !{elem(@methods).second.is_init} | !{elem(@methods).second.is_public} | {elem(@methods).second.is_payable}
true !{elem(@methods).second.is_init} | !{elem(@methods).second.is_public} | {elem(@methods).second.is_const}
true !{elem(@methods).second.is_init} | !{elem(@methods).second.is_payable} | {elem(@methods).second.is_const}
true {is_valid()}
fn mmx::contract::TokenBase::is_valid
never throw …
true {is_valid()}
true !{64 < size(@name)}
true !{6 < size(@symbol)}
true !{"MMX" == @symbol}
true {find_first_of(@symbol, " \n\t\r", 0) == npos}
true {-1 < @decimals}
true !{18 < @decimals}
true {is_json(@meta_data)}
fn mmx::operation::Execute::is_valid
false !{is_json(elem(@args))} | !{is_valid()} | {empty(@method)}
never throw …
true {is_json(elem(@args))}
true {is_valid()}
true !{empty(@method)}
never break(@args) ;; !{is_json(elem(@args))}
fn mmx::operation::Execute::calc_cost
never break(@args)
never throw …
exit {ret = (($0.min_txfee_byte * (size(@method) + total(@args, get_num_bytes(elem(@args))))) + calc_cost($0))}
fn mmx::operation::Deposit::is_valid
false !{is_valid()} | !{@amount}
never throw …
true {is_valid()}
true {@amount}
fn mmx::solution::MultiSig::is_valid
false !{elem(@solutions).second} | !{is_valid(elem(@solutions).second)} | !{is_valid()}
never throw …
true {elem(@solutions).second}
true {is_valid(elem(@solutions).second)}
true {is_valid()}
never break(@solutions) ;; !{elem(@solutions).second} | !{is_valid(elem(@solutions).second)}
fn mmx::solution::MultiSig::calc_cost
never break(@solutions)
never throw …
exit {ret = ($0.min_txfee_sign + total(@solutions, ite({elem(@solutions).second}, calc_cost(elem(@solutions).second, $0), 0)))}
fn mmx::solution::PubKey::calc_cost
never throw …
exit {ret = $0.min_txfee_sign}
fn mmx::Contract::num_bytes
never throw …
exit {ret = 16}
fn mmx::contract::Binary::num_bytes
never break(@methods)
never break(@fields)
never throw …
exit {ret = ((4 * size(@fields)) + (8 * size(@line_info)) + num_bytes() + size(@binary) + size(@compiler) + size(@constant) + size(@name) + size(@source) + total(@fields, size(elem(@fields).first)) + total(@methods, num_bytes(elem(@methods).second)) + total(@methods, size(elem(@methods).first)))}
fn mmx::contract::Data::num_bytes
never throw …
exit {ret = (get_num_bytes(@value) + num_bytes())}
fn mmx::contract::Executable::num_bytes
never break(@init_args)
never break(@depends)
never throw …
exit {ret = ((32 * size(@depends)) + num_bytes() + size(@init_method) + total(@depends, size(elem(@depends).first)) + total(@init_args, get_num_bytes(elem(@init_args))) + 32)}
fn mmx::contract::MultiSig::num_bytes
never throw …
exit {ret = ((32 * size(@owners)) + num_bytes())}
fn mmx::contract::PubKey::num_bytes
never throw …
exit {ret = (num_bytes() + 32)}
fn mmx::contract::TokenBase::num_bytes
never throw …
exit {ret = (get_num_bytes(@meta_data) + num_bytes() + size(@name) + size(@symbol))}
fn mmx::contract::WebData::num_bytes
never throw …
exit {ret = (num_bytes() + size(@mime_type) + size(@payload))}
fn mmx::Transaction::get_inputs
each insert(@inputs, end(@inputs), begin(@exec_result.inputs), end(@exec_result.inputs)) ;; {@exec_result}
never throw …
exit !{@exec_result} | {did insert(@inputs, end(@inputs), begin(@exec_result.inputs), end(@exec_result.inputs))}
at insert(@inputs, end(@inputs), begin(@exec_result.inputs), end(@exec_result.inputs)) ;; {@exec_result}
fn mmx::Transaction::get_outputs
each insert(@outputs, end(@outputs), begin(@exec_result.outputs), end(@exec_result.outputs)) ;; {@exec_result}
never throw …
exit !{@exec_result} | {did insert(@outputs, end(@outputs), begin(@exec_result.outputs), end(@exec_result.outputs))}
at insert(@outputs, end(@outputs), begin(@exec_result.outputs), end(@exec_result.outputs)) ;; {@exec_result}
fn mmx::Transaction::get_balance
each at(%map<addr_t,pair<uint128,uint128>>, elem(get_inputs()).contract).first = (at(%map<addr_t,pair<uint128,uint128>>, elem(get_inputs()).contract).first + elem(get_inputs()).amount)
each at(%map<addr_t,pair<uint128,uint128>>, elem(get_outputs()).contract).second = (at(%map<addr_t,pair<uint128,uint128>>, elem(get_outputs()).contract).second + elem(get_outputs()).amount)
never break(get_inputs())
never break(get_outputs())
never throw …
exit {did at(%map<addr_t,pair<uint128,uint128>>, elem(get_inputs()).contract).first = (at(%map<addr_t,pair<uint128,uint128>>, elem(get_inputs()).contract).first + elem(get_inputs()).amount)}
exit {did at(%map<addr_t,pair<uint128,uint128>>, elem(get_outputs()).contract).second = (at(%map<addr_t,pair<uint128,uint128>>, elem(get_outputs()).contract).second + elem(get_outputs()).amount)}
at at(%map<addr_t,pair<uint128,uint128>>, elem(get_inputs()).contract).first = (at(%map<addr_t,pair<uint128,uint128>>, elem(get_inputs()).contract).first + elem(get_inputs()).amount)
at at(%map<addr_t,pair<uint128,uint128>>, elem(get_outputs()).contract).second = (at(%map<addr_t,pair<uint128,uint128>>, elem(get_outputs()).contract).second + elem(get_outputs()).amount)
fn mmx::Transaction::get_tx_index
each %tx_index_t.height = $1.height
each %tx_index_t.time_stamp = $1.time_stamp
each %tx_index_t.file_offset = $2
each %tx_index_t.static_cost = @static_cost
each %tx_index_t.contract_read_cost = u32((($0.min_txfee_read_kbyte * num_bytes(@deploy)) / 1000)) ;; {@deploy}
never throw …
exit {did %tx_index_t.file_offset = $2}
exit {did %tx_index_t.height = $1.height}
exit {did %tx_index_t.static_cost = @static_cost}
exit {did %tx_index_t.time_stamp = $1.time_stamp}
exit !{@deploy} | {did %tx_index_t.contract_read_cost = u32((($0.min_txfee_read_kbyte * num_bytes(@deploy)) / 1000))}
at %tx_index_t.height = $1.height
at %tx_index_t.time_stamp = $1.time_stamp
at %tx_index_t.file_offset = $2
at %tx_index_t.static_cost = @static_cost
at %tx_index_t.contract_read_cost = u32((($0.min_txfee_read_kbyte * num_bytes(@deploy)) / 1000)) ;; {@deploy}
fn mmx::Transaction::add_output
each %txout_t.address = $1 ;; !{$3} | !{MAX_MEMO_SIZE < size($3)}
each %txout_t.contract = $0 ;; !{$3} | !{MAX_MEMO_SIZE < size($3)}
each %txout_t.amount = $2 ;; !{$3} | !{MAX_MEMO_SIZE < size($3)}
each %txout_t.memo = $3 ;; !{$3} | !{MAX_MEMO_SIZE < size($3)}
each push_back(@outputs, %txout_t) ;; !{$3} | !{MAX_MEMO_SIZE < size($3)}
raise {$3} ;; {MAX_MEMO_SIZE < size($3)}
exit {did %txout_t.address = $1}
exit {did %txout_t.amount = $2}
exit {did %txout_t.contract = $0}
exit {did %txout_t.memo = $3}
exit {did push_back(@outputs, %txout_t)}
exit !{$3} | !{MAX_MEMO_SIZE < size($3)}
at %txout_t.address = $1
at %txout_t.contract = $0
at %txout_t.amount = $2
at %txout_t.memo = $3
at push_back(@outputs, %txout_t)
fn mmx::Transaction::add_input
each %txin_t.address = $1
each %txin_t.contract = $0
each %txin_t.amount = $2
each push_back(@inputs, %txin_t)
never throw …
exit {did %txin_t.address = $1}
exit {did %txin_t.amount = $2}
exit {did %txin_t.contract = $0}
exit {did push_back(@inputs, %txin_t)}
at %txin_t.address = $1
at %txin_t.contract = $0
at %txin_t.amount = $2
at push_back(@inputs, %txin_t)
fn mmx::Transaction::is_signed
false !{elem(@inputs).solution < size(@solutions)}
never throw …
true {elem(@inputs).solution < size(@solutions)}
never break(@inputs) ;; !{elem(@inputs).solution < size(@solutions)}
