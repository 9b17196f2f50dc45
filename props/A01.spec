tus src/Node_api.cpp
fn mmx::Node::get_genesis_hash
raise !{get_header_at(0)}
exit {get_header_at(0)}
exit {ret = get_header_at(0).hash}
fn mmx::Node::get_height
raise !{get_peak()}
exit {get_peak()}
exit {ret = get_peak().height}
fn mmx::Node::get_synced_height
never throw …
exit {ret = ite({@is_synced}, get_height(), 0)}
exit !{@is_synced} | {ret = get_height()}
exit {@is_synced} | {ret = 0}
fn mmx::Node::get_synced_vdf_height
never throw …
exit {ret = ite({@is_synced}, get_vdf_height(), 0)}
exit !{@is_synced} | {ret = get_vdf_height()}
exit {@is_synced} | {ret = 0}
fn mmx::Node::get_block
never throw …
exit {ret = ite({is<Block>(get_block_ex($0, true))}, get_block_ex($0, true), 0)}
exit !{is<Block>(get_block_ex($0, true))} | {ret = get_block_ex($0, true)}
exit {is<Block>(get_block_ex($0, true))} | {ret = 0}
fn mmx::Node::get_block_ex
each find(@block_index, $0, %block_index_t, 4294967295) ;; !{has(@fork_tree, $0)}
each open(%File, "rb") ;; !{has(@fork_tree, $0)} ;; {find(@block_index, $0, %block_index_t, 4294967295)}
each seek_to(%File, %block_index_t.file_offset) ;; !{has(@fork_tree, $0)} ;; {find(@block_index, $0, %block_index_t, 4294967295)}
each read_block(%File, $1, 0) ;; !{has(@fork_tree, $0)} ;; {find(@block_index, $0, %block_index_t, 4294967295)}
never throw …
at ctor:File(get_path(@blocks))
exit {ret = ite({has(@fork_tree, $0)}, at(@fork_tree, $0).block, ite((!{$1} && {has(@history, $0)}), at(@history, $0), ite({find(@block_index, $0, %block_index_t, 4294967295)}, read_block(%File, $1, 0), 0)))}
exit !{has(@fork_tree, $0)} | {ret = at(@fork_tree, $0).block}
exit !{$1} | {did find(@block_index, $0, %block_index_t, 4294967295)} | {has(@fork_tree, $0)}
exit {did find(@block_index, $0, %block_index_t, 4294967295)} | {has(@fork_tree, $0)} | {has(@history, $0)}
exit !{$1} | !{find(@block_index, $0, %block_index_t, 4294967295)} | {did open(%File, "rb")} | {has(@fork_tree, $0)}
exit !{$1} | !{find(@block_index, $0, %block_index_t, 4294967295)} | {did read_block(%File, $1, 0)} | {has(@fork_tree, $0)}
exit !{$1} | !{find(@block_index, $0, %block_index_t, 4294967295)} | {did seek_to(%File, %block_index_t.file_offset)} | {has(@fork_tree, $0)}
exit !{$1} | !{find(@block_index, $0, %block_index_t, 4294967295)} | {has(@fork_tree, $0)} | {ret = read_block(%File, $1, 0)}
exit !{$1} | {find(@block_index, $0, %block_index_t, 4294967295)} | {has(@fork_tree, $0)} | {ret = 0}
exit !{find(@block_index, $0, %block_index_t, 4294967295)} | {did open(%File, "rb")} | {has(@fork_tree, $0)} | {has(@history, $0)}
exit !{find(@block_index, $0, %block_index_t, 4294967295)} | {did read_block(%File, $1, 0)} | {has(@fork_tree, $0)} | {has(@history, $0)}
exit !{find(@block_index, $0, %block_index_t, 4294967295)} | {did seek_to(%File, %block_index_t.file_offset)} | {has(@fork_tree, $0)} | {has(@history, $0)}
exit !{find(@block_index, $0, %block_index_t, 4294967295)} | {has(@fork_tree, $0)} | {has(@history, $0)} | {ret = read_block(%File, $1, 0)}
exit !{has(@history, $0)} | {$1} | {has(@fork_tree, $0)} | {ret = at(@history, $0)}
exit {find(@block_index, $0, %block_index_t, 4294967295)} | {has(@fork_tree, $0)} | {has(@history, $0)} | {ret = 0}
at find(@block_index, $0, %block_index_t, 4294967295) ;; !{has(@fork_tree, $0)}
at open(%File, "rb") ;; !{has(@fork_tree, $0)} ;; {find(@block_index, $0, %block_index_t, 4294967295)}
at seek_to(%File, %block_index_t.file_offset) ;; !{has(@fork_tree, $0)} ;; {find(@block_index, $0, %block_index_t, 4294967295)}
at read_block(%File, $1, 0) ;; !{has(@fork_tree, $0)} ;; {find(@block_index, $0, %block_index_t, 4294967295)}
fn mmx::Node::get_block_at
never throw …
exit {ret = ite({is<Block>(get_block_at_ex($0, true))}, get_block_at_ex($0, true), 0)}
exit !{is<Block>(get_block_at_ex($0, true))} | {ret = get_block_at_ex($0, true)}
exit {is<Block>(get_block_at_ex($0, true))} | {ret = 0}
fn mmx::Node::get_block_at_ex
never throw …
exit {ret = ite({get_block_hash($0)}, get_block_ex(get_block_hash($0), $1), 0)}
exit !{get_block_hash($0)} | {ret = get_block_ex(get_block_hash($0), $1)}
exit {get_block_hash($0)} | {ret = 0}
fn mmx::Node::get_header
never throw …
exit {ret = get_block_ex($0, false)}
fn mmx::Node::get_header_at
never throw …
exit {ret = get_block_at_ex($0, false)}
fn mmx::Node::get_block_hash
each find(@height_map, $0, ctor(hash_t), 4294967295)
never throw …
exit {did find(@height_map, $0, ctor(hash_t), 4294967295)}
exit {ret = ite({find(@height_map, $0, ctor(hash_t), 4294967295)}, out(find‥, $0, 4294967295), 0)}
exit !{find(@height_map, $0, ctor(hash_t), 4294967295)} | {ret = out(find‥, $0, 4294967295)}
exit {find(@height_map, $0, ctor(hash_t), 4294967295)} | {ret = 0}
at find(@height_map, $0, ctor(hash_t), 4294967295)
fn mmx::Node::get_block_hash_ex
each find(@block_index, get_block_hash($0), %block_index_t, 4294967295) ;; {get_block_hash($0)}
never throw …
exit {ret = ite((!{find(@block_index, get_block_hash($0), %block_index_t, 4294967295)} || !{get_block_hash($0)}), 0, pair(get_block_hash($0), %block_index_t.content_hash))}
exit {find(@block_index, get_block_hash($0), %block_index_t, 4294967295)} | {ret = 0}
exit {get_block_hash($0)} | {ret = 0}
exit !{find(@block_index, get_block_hash($0), %block_index_t, 4294967295)} | !{get_block_hash($0)} | {did find(@block_index, get_block_hash($0), %block_index_t, 4294967295)}
exit !{find(@block_index, get_block_hash($0), %block_index_t, 4294967295)} | !{get_block_hash($0)} | {ret = pair(get_block_hash($0), %block_index_t.content_hash)}
exit !{get_block_hash($0)} | {did find(@block_index, get_block_hash($0), %block_index_t, 4294967295)} | {find(@block_index, get_block_hash($0), %block_index_t, 4294967295)}
at find(@block_index, get_block_hash($0), %block_index_t, 4294967295) ;; {get_block_hash($0)}
fn mmx::Node::get_tx_ids
each reverse_scan(@tx_log, lambda)
each push_back(%vector<hash_t>, elem($cb1)) ;; {size(%vector<hash_t>) < $0}
never throw …
exit {did reverse_scan(@tx_log, lambda)}
exit {ret = %vector<hash_t>}
at reverse_scan(@tx_log, lambda)
at push_back(%vector<hash_t>, elem($cb1)) ;; {size(%vector<hash_t>) < $0}
never break($cb1) ;; !{size(%vector<hash_t>) < $0}
fn mmx::Node::get_tx_ids_at
each find(@tx_log, $0, %vector<hash_t>, 4294967295)
never throw …
exit {did find(@tx_log, $0, %vector<hash_t>, 4294967295)}
exit {ret = %vector<hash_t>}
at find(@tx_log, $0, %vector<hash_t>, 4294967295)
fn mmx::Node::get_tx_ids_since
each find_greater_equal(@tx_log, $0, %vector<vector<hash_t>>, 18446744073709551615)
each insert(%vector<hash_t>, end(%vector<hash_t>), begin(elem(%vector<vector<hash_t>>)), end(elem(%vector<vector<hash_t>>)))
never break(%vector<vector<hash_t>>)
never throw …
exit {did find_greater_equal(@tx_log, $0, %vector<vector<hash_t>>, 18446744073709551615)}
exit {did insert(%vector<hash_t>, end(%vector<hash_t>), begin(elem(%vector<vector<hash_t>>)), end(elem(%vector<vector<hash_t>>)))}
exit {ret = %vector<hash_t>}
at find_greater_equal(@tx_log, $0, %vector<vector<hash_t>>, 18446744073709551615)
at insert(%vector<hash_t>, end(%vector<hash_t>), begin(elem(%vector<vector<hash_t>>)), end(elem(%vector<vector<hash_t>>)))
fn mmx::Node::get_tx_height
each find(@tx_index, $0, %tx_index_t, 4294967295)
never throw …
exit {did find(@tx_index, $0, %tx_index_t, 4294967295)}
exit {ret = ite({find(@tx_index, $0, %tx_index_t, 4294967295)}, %tx_index_t.height, 0)}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {ret = %tx_index_t.height}
exit {find(@tx_index, $0, %tx_index_t, 4294967295)} | {ret = 0}
at find(@tx_index, $0, %tx_index_t, 4294967295)
fn mmx::Node::get_tx_info
never throw …
exit {ret = ite({get_transaction($0, true)}, get_tx_info_for(get_transaction($0, true)), 0)}
exit !{get_transaction($0, true)} | {ret = get_tx_info_for(get_transaction($0, true))}
exit {get_transaction($0, true)} | {ret = 0}
fn mmx::Node::get_tx_info_for
each %tx_info_t.id = $0.id ;; {$0}
each %tx_info_t.expires = $0.expires ;; {$0}
each find(@tx_index, $0.id, %tx_index_t, 4294967295) ;; {$0}
each %tx_info_t.height = %tx_index_t.height ;; {$0} ;; {find(@tx_index, $0.id, %tx_index_t, 4294967295)}
each %tx_info_t.time_stamp = %tx_index_t.time_stamp ;; {$0} ;; {find(@tx_index, $0.id, %tx_index_t, 4294967295)}
each %tx_info_t.block = get_block_hash(%tx_index_t.height) ;; {$0} ;; {find(@tx_index, $0.id, %tx_index_t, 4294967295)}
each %tx_info_t.fee = $0.exec_result.total_fee ;; {$0} ;; {$0.exec_result}
each %tx_info_t.cost = $0.exec_result.total_cost ;; {$0} ;; {$0.exec_result}
each %tx_info_t.did_fail = $0.exec_result.did_fail ;; {$0} ;; {$0.exec_result}
each %tx_info_t.message = get_error_msg($0.exec_result) ;; {$0} ;; {$0.exec_result}
each %tx_info_t.cost = $0.static_cost ;; {$0} ;; !{$0.exec_result}
each %tx_info_t.note = $0.note ;; {$0}
each %tx_info_t.sender = $0.sender ;; {$0}
each %tx_info_t.inputs = get_inputs($0) ;; {$0}
each %tx_info_t.outputs = get_outputs($0) ;; {$0}
each %tx_info_t.operations = get_operations($0) ;; {$0}
each %tx_info_t.deployed = $0.deploy ;; {$0}
each insert(%set<addr_t>, elem(get_inputs($0)).contract) ;; {$0}
each at(%tx_info_t.input_amounts, elem(get_inputs($0)).contract) = (at(%tx_info_t.input_amounts, elem(get_inputs($0)).contract) + elem(get_inputs($0)).amount) ;; {$0}
each insert(%set<addr_t>, elem(get_outputs($0)).contract) ;; {$0}
each at(%tx_info_t.output_amounts, elem(get_outputs($0)).contract) = (at(%tx_info_t.output_amounts, elem(get_outputs($0)).contract) + elem(get_outputs($0)).amount) ;; {$0}
each insert(%set<addr_t>, elem($0.execute).address) ;; {$0} ;; {elem($0.execute)}
each at(%tx_info_t.contracts, elem(%set<addr_t>)) = get_contract(elem(%set<addr_t>)) ;; {$0} ;; {get_contract(elem(%set<addr_t>))}
never break(get_inputs($0))
never break(get_outputs($0))
never break($0.execute)
never break(%set<addr_t>)
never throw …
exit {ret = ite({$0}, %tx_info_t, 0)}
exit !{$0} | {did %tx_info_t.deployed = $0.deploy}
exit !{$0} | {did %tx_info_t.expires = $0.expires}
exit !{$0} | {did %tx_info_t.id = $0.id}
exit !{$0} | {did %tx_info_t.inputs = get_inputs($0)}
exit !{$0} | {did %tx_info_t.note = $0.note}
exit !{$0} | {did %tx_info_t.operations = get_operations($0)}
exit !{$0} | {did %tx_info_t.outputs = get_outputs($0)}
exit !{$0} | {did %tx_info_t.sender = $0.sender}
exit !{$0} | {did at(%tx_info_t.input_amounts, elem(get_inputs($0)).contract) = (at(%tx_info_t.input_amounts, elem(get_inputs($0)).contract) + elem(get_inputs($0)).amount)}
exit !{$0} | {did at(%tx_info_t.output_amounts, elem(get_outputs($0)).contract) = (at(%tx_info_t.output_amounts, elem(get_outputs($0)).contract) + elem(get_outputs($0)).amount)}
exit !{$0} | {did find(@tx_index, $0.id, %tx_index_t, 4294967295)}
exit !{$0} | {did insert(%set<addr_t>, elem(get_inputs($0)).contract)}
exit !{$0} | {did insert(%set<addr_t>, elem(get_outputs($0)).contract)}
exit !{$0} | {ret = %tx_info_t}
exit {$0} | {ret = 0}
exit !{$0.exec_result} | !{$0} | {did %tx_info_t.cost = $0.exec_result.total_cost}
exit !{$0.exec_result} | !{$0} | {did %tx_info_t.did_fail = $0.exec_result.did_fail}
exit !{$0.exec_result} | !{$0} | {did %tx_info_t.fee = $0.exec_result.total_fee}
exit !{$0.exec_result} | !{$0} | {did %tx_info_t.message = get_error_msg($0.exec_result)}
exit !{$0} | !{elem($0.execute)} | {did insert(%set<addr_t>, elem($0.execute).address)}
exit !{$0} | !{find(@tx_index, $0.id, %tx_index_t, 4294967295)} | {did %tx_info_t.block = get_block_hash(%tx_index_t.height)}
exit !{$0} | !{find(@tx_index, $0.id, %tx_index_t, 4294967295)} | {did %tx_info_t.height = %tx_index_t.height}
exit !{$0} | !{find(@tx_index, $0.id, %tx_index_t, 4294967295)} | {did %tx_info_t.time_stamp = %tx_index_t.time_stamp}
exit !{$0} | !{get_contract(elem(%set<addr_t>))} | {did at(%tx_info_t.contracts, elem(%set<addr_t>)) = get_contract(elem(%set<addr_t>))}
exit !{$0} | {$0.exec_result} | {did %tx_info_t.cost = $0.static_cost}
at %tx_info_t.id = $0.id ;; {$0}
at %tx_info_t.expires = $0.expires ;; {$0}
at find(@tx_index, $0.id, %tx_index_t, 4294967295) ;; {$0}
at %tx_info_t.height = %tx_index_t.height ;; {$0} ;; {find(@tx_index, $0.id, %tx_index_t, 4294967295)}
at %tx_info_t.time_stamp = %tx_index_t.time_stamp ;; {$0} ;; {find(@tx_index, $0.id, %tx_index_t, 4294967295)}
at %tx_info_t.block = get_block_hash(%tx_index_t.height) ;; {$0} ;; {find(@tx_index, $0.id, %tx_index_t, 4294967295)}
at %tx_info_t.fee = $0.exec_result.total_fee ;; {$0} ;; {$0.exec_result}
at %tx_info_t.cost = $0.exec_result.total_cost ;; {$0} ;; {$0.exec_result}
at %tx_info_t.did_fail = $0.exec_result.did_fail ;; {$0} ;; {$0.exec_result}
at %tx_info_t.message = get_error_msg($0.exec_result) ;; {$0} ;; {$0.exec_result}
at %tx_info_t.cost = $0.static_cost ;; {$0} ;; !{$0.exec_result}
at %tx_info_t.note = $0.note ;; {$0}
at %tx_info_t.sender = $0.sender ;; {$0}
at %tx_info_t.inputs = get_inputs($0) ;; {$0}
at %tx_info_t.outputs = get_outputs($0) ;; {$0}
at %tx_info_t.operations = get_operations($0) ;; {$0}
at %tx_info_t.deployed = $0.deploy ;; {$0}
at insert(%set<addr_t>, elem(get_inputs($0)).contract) ;; {$0}
at at(%tx_info_t.input_amounts, elem(get_inputs($0)).contract) = (at(%tx_info_t.input_amounts, elem(get_inputs($0)).contract) + elem(get_inputs($0)).amount) ;; {$0}
at insert(%set<addr_t>, elem(get_outputs($0)).contract) ;; {$0}
at at(%tx_info_t.output_amounts, elem(get_outputs($0)).contract) = (at(%tx_info_t.output_amounts, elem(get_outputs($0)).contract) + elem(get_outputs($0)).amount) ;; {$0}
at insert(%set<addr_t>, elem($0.execute).address) ;; {$0} ;; {elem($0.execute)}
at at(%tx_info_t.contracts, elem(%set<addr_t>)) = get_contract(elem(%set<addr_t>)) ;; {$0} ;; {get_contract(elem(%set<addr_t>))}
fn mmx::Node::get_transaction
each find(@tx_index, $0, %tx_index_t, 4294967295)
each open(%File, "rb") ;; {find(@tx_index, $0, %tx_index_t, 4294967295)}
each seek_to(%File, %tx_index_t.file_offset) ;; {find(@tx_index, $0, %tx_index_t, 4294967295)}
each read(%File.in) ;; {find(@tx_index, $0, %tx_index_t, 4294967295)}
never throw …
exit {ret = ite((!{$1} || !{has(@tx_pool, $0)}), ite((!{$0 == elem(@tx_queue).second.id} || !{$1} || !{elem(@tx_queue).second} || {has(@tx_pool, $0)}), ite((!{find(@tx_index, $0, %tx_index_t, 4294967295)} || !{is<Transaction>(read(%File.in))} || !{read(%File.in)}), 0, read(%File.in)), elem(@tx_queue).second), at(@tx_pool, $0).tx)}
exit {$1} | {did find(@tx_index, $0, %tx_index_t, 4294967295)}
exit !{$1} | !{has(@tx_pool, $0)} | {ret = at(@tx_pool, $0).tx}
exit {$0 == elem(@tx_queue).second.id} | {did find(@tx_index, $0, %tx_index_t, 4294967295)} | {has(@tx_pool, $0)}
exit {$1} | {find(@tx_index, $0, %tx_index_t, 4294967295)} | {ret = 0}
exit {$1} | {is<Transaction>(read(%File.in))} | {ret = 0}
exit {$1} | {read(%File.in)} | {ret = 0}
exit {did find(@tx_index, $0, %tx_index_t, 4294967295)} | {elem(@tx_queue).second} | {has(@tx_pool, $0)}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {$1} | {did open(%File, "rb")} | {is<Transaction>(read(%File.in))}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {$1} | {did open(%File, "rb")} | {read(%File.in)}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {$1} | {did read(%File.in)} | {is<Transaction>(read(%File.in))}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {$1} | {did read(%File.in)} | {read(%File.in)}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {$1} | {did seek_to(%File, %tx_index_t.file_offset)} | {is<Transaction>(read(%File.in))}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {$1} | {did seek_to(%File, %tx_index_t.file_offset)} | {read(%File.in)}
exit {$0 == elem(@tx_queue).second.id} | {find(@tx_index, $0, %tx_index_t, 4294967295)} | {has(@tx_pool, $0)} | {ret = 0}
exit {$0 == elem(@tx_queue).second.id} | {has(@tx_pool, $0)} | {is<Transaction>(read(%File.in))} | {ret = 0}
exit {$0 == elem(@tx_queue).second.id} | {has(@tx_pool, $0)} | {read(%File.in)} | {ret = 0}
exit {elem(@tx_queue).second} | {find(@tx_index, $0, %tx_index_t, 4294967295)} | {has(@tx_pool, $0)} | {ret = 0}
exit {elem(@tx_queue).second} | {has(@tx_pool, $0)} | {is<Transaction>(read(%File.in))} | {ret = 0}
exit {elem(@tx_queue).second} | {has(@tx_pool, $0)} | {read(%File.in)} | {ret = 0}
exit !{$0 == elem(@tx_queue).second.id} | !{$1} | !{elem(@tx_queue).second} | {has(@tx_pool, $0)} | {ret = elem(@tx_queue).second}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | !{is<Transaction>(read(%File.in))} | !{read(%File.in)} | {$1} | {did open(%File, "rb")}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | !{is<Transaction>(read(%File.in))} | !{read(%File.in)} | {$1} | {did read(%File.in)}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | !{is<Transaction>(read(%File.in))} | !{read(%File.in)} | {$1} | {did seek_to(%File, %tx_index_t.file_offset)}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | !{is<Transaction>(read(%File.in))} | !{read(%File.in)} | {$1} | {ret = read(%File.in)}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {$0 == elem(@tx_queue).second.id} | {did open(%File, "rb")} | {has(@tx_pool, $0)} | {is<Transaction>(read(%File.in))}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {$0 == elem(@tx_queue).second.id} | {did open(%File, "rb")} | {has(@tx_pool, $0)} | {read(%File.in)}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {$0 == elem(@tx_queue).second.id} | {did read(%File.in)} | {has(@tx_pool, $0)} | {is<Transaction>(read(%File.in))}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {$0 == elem(@tx_queue).second.id} | {did read(%File.in)} | {has(@tx_pool, $0)} | {read(%File.in)}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {$0 == elem(@tx_queue).second.id} | {did seek_to(%File, %tx_index_t.file_offset)} | {has(@tx_pool, $0)} | {is<Transaction>(read(%File.in))}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {$0 == elem(@tx_queue).second.id} | {did seek_to(%File, %tx_index_t.file_offset)} | {has(@tx_pool, $0)} | {read(%File.in)}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {did open(%File, "rb")} | {elem(@tx_queue).second} | {has(@tx_pool, $0)} | {is<Transaction>(read(%File.in))}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {did open(%File, "rb")} | {elem(@tx_queue).second} | {has(@tx_pool, $0)} | {read(%File.in)}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {did read(%File.in)} | {elem(@tx_queue).second} | {has(@tx_pool, $0)} | {is<Transaction>(read(%File.in))}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {did read(%File.in)} | {elem(@tx_queue).second} | {has(@tx_pool, $0)} | {read(%File.in)}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {did seek_to(%File, %tx_index_t.file_offset)} | {elem(@tx_queue).second} | {has(@tx_pool, $0)} | {is<Transaction>(read(%File.in))}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {did seek_to(%File, %tx_index_t.file_offset)} | {elem(@tx_queue).second} | {has(@tx_pool, $0)} | {read(%File.in)}
at find(@tx_index, $0, %tx_index_t, 4294967295)
at open(%File, "rb") ;; {find(@tx_index, $0, %tx_index_t, 4294967295)}
at seek_to(%File, %tx_index_t.file_offset) ;; {find(@tx_index, $0, %tx_index_t, 4294967295)}
at read(%File.in) ;; {find(@tx_index, $0, %tx_index_t, 4294967295)}
never break(@tx_queue) ;; {$1} ;; !{has(@tx_pool, $0)} ;; {elem(@tx_queue).second} ;; {$0 == elem(@tx_queue).second.id}
fn mmx::Node::get_transactions
each push_back(%vector<shared_ptr<Transaction>>, ite({‥}, maybe(0), get_transaction(elem($0), false)))
never break($0)
never throw …
exit {ret = %vector<shared_ptr<Transaction>>}
at push_back(%vector<shared_ptr<Transaction>>, ite({…}, maybe(0), get_transaction(elem($0), false)))
fn mmx::Node::get_history
never break(loop)
at make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search}
never filter_txio(elem(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).second, $1) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search}
never create_ex(elem(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).second, 0) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; {filter_txio(elem(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).second, $1)}
never filter_txio(elem(%vector<txio_entry_t>), $1) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search}
never create_ex(elem(%vector<txio_entry_t>), 0) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; {filter_txio(elem(%vector<txio_entry_t>), $1)}
never get_inputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second) ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second}
never get_outputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second) ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second}
never break(%set<addr_t>)
each make_tuple(elem(%set<addr_t>), $1.until, -1) ;; !{$1.memo} ;; {$1.limit}
each at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%set<addr_t>)) = make_tuple(elem(%set<addr_t>), $1.until, -1) ;; !{$1.memo} ;; {$1.limit}
each make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search}
each find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search}
each push_back(%vector<tx_entry_t>, create_ex(elem(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).second, 0)) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; {filter_txio(elem(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).second, $1)}
each at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first) = (fold(at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first), (ite({filter_txio(elem(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).second, $1)}, 1, 0) + ~), %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>) + 1) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; {filter_txio(elem(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).second, $1)}
each elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second = back(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).first ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{empty(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>)}
each push_back(%vector<addr_t>, elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{(at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first) + total(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, ite({filter_txio(elem(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).second, $1)}, 1, 0))) < $1.limit} | !{99 < size(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>)}
each get2(at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>))) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search}
each get2(at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>))) = 0 ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search}
each find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search}
each push_back(%vector<tx_entry_t>, create_ex(elem(%vector<txio_entry_t>), 0)) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; {filter_txio(elem(%vector<txio_entry_t>), $1)}
each erase(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search}
each operator=(%tx_entry_t, elem(get_inputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second))) ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_inputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second)).address)}
each %tx_entry_t.type = tx_type_e::SPEND ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_inputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second)).address)}
each %tx_entry_t.txid = fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second.id ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_inputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second)).address)}
each %tx_entry_t.height = 4294967295 ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_inputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second)).address)}
each %tx_entry_t.is_pending = true ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_inputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second)).address)}
each push_back(%vector<tx_entry_t>, %tx_entry_t) ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_inputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second)).address)}
each operator=(%tx_entry_t, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second))) ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second)).address)}
each %tx_entry_t.type = tx_type_e::RECEIVE ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second)).address)}
each %tx_entry_t.txid = fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second.id ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second)).address)}
each %tx_entry_t.height = 4294967295 ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second)).address)}
each %tx_entry_t.is_pending = true ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second)).address)}
each push_back(%vector<tx_entry_t>, %tx_entry_t) ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second)).address)}
each sort(begin(%vector<tx_entry_t>), end(%vector<tx_entry_t>), by({make_tuple($cb1.height, $cb1.txid, $cb1.type, $cb1.contract, $cb1.address, $cb1.memo, $cb1.amount) < make_tuple($cb0.height, $cb0.txid, $cb0.type, $cb0.contract, $cb0.address, $cb0.memo, $cb0.amount)})) ;; !{$1.memo} ;; {$1.limit}
each resize(%vector<tx_entry_t>, fold(w64(($1.limit + -1)), (~ + 1))) ;; !{$1.memo} ;; {$1.limit} ;; {0 < $1.limit} ;; {$1.limit < size(%vector<tx_entry_t>)}
never break(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>)
never break(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)
never break(%vector<txio_entry_t>)
never break(%vector<addr_t>)
never break(get_inputs(~0.second))
never break(get_outputs(~0.second))
never break(get_inputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second))
never break(get_outputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second))
never throw …
at ctor:set<addr_t>(begin($0), end($0))
value fold(w64(($1.limit + -1)), (~ + 1))
value fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1))
value fold(at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first), (ite({filter_txio(elem(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).second, $1)}, 1, 0) + ~), %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>)
value fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2#v), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))
exit {ret = ite({$1.memo}, get_history_memo($0, $1.memo, $1), ite({$1.limit}, %vector<tx_entry_t>, ctor(vector<tx_entry_t>)))}
exit !{$1.memo} | {ret = get_history_memo($0, $1.memo, $1)}
exit !{$1.limit} | {$1.memo} | {did at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%set<addr_t>)) = make_tuple(elem(%set<addr_t>), $1.until, -1)}
exit !{$1.limit} | {$1.memo} | {did erase(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>))}
exit !{$1.limit} | {$1.memo} | {did find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)}
exit !{$1.limit} | {$1.memo} | {did find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)}
exit !{$1.limit} | {$1.memo} | {did get2(at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>))) = 0}
exit !{$1.limit} | {$1.memo} | {did get2(at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)))}
exit !{$1.limit} | {$1.memo} | {did sort(begin(%vector<tx_entry_t>), end(%vector<tx_entry_t>), by({make_tuple($cb1.height, $cb1.txid, $cb1.type, $cb1.contract, $cb1.address, $cb1.memo, $cb1.amount) < make_tuple($cb0.height, $cb0.txid, $cb0.type, $cb0.contract, $cb0.address, $cb0.memo, $cb0.amount)}))}
exit !{$1.limit} | {$1.memo} | {ret = %vector<tx_entry_t>}
exit {$1.limit} | {$1.memo} | {ret = ctor(vector<tx_entry_t>)}
exit !{$1.limit} | !{$1.with_pending} | {$1.memo} | {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))}
exit !{$1.limit} | !{filter_txio(elem(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).second, $1)} | {$1.memo} | {did at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first) = (fold(at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first), (ite({filter_txio(elem(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).second, $1)}, 1, 0) + ~), %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>) + 1)}
exit !{$1.limit} | !{filter_txio(elem(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).second, $1)} | {$1.memo} | {did push_back(%vector<tx_entry_t>, create_ex(elem(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).second, 0))}
exit !{$1.limit} | !{filter_txio(elem(%vector<txio_entry_t>), $1)} | {$1.memo} | {did push_back(%vector<tx_entry_t>, create_ex(elem(%vector<txio_entry_t>), 0))}
exit !{$1.limit} | {$1.memo} | {(at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first) + total(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, ite({filter_txio(elem(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).second, $1)}, 1, 0))) < $1.limit} | {did push_back(%vector<addr_t>, elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first)}
exit !{$1.limit} | {$1.memo} | {99 < size(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>)} | {did push_back(%vector<addr_t>, elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first)}
exit !{$1.limit} | {$1.memo} | {did elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second = back(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).first} | {empty(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>)}
exit !{$1.limit < size(%vector<tx_entry_t>)} | !{$1.limit} | !{0 < $1.limit} | {$1.memo} | {did resize(%vector<tx_entry_t>, fold(w64(($1.limit + -1)), (~ + 1)))}
exit !{$1.limit} | !{$1.max_search} | !{fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} | {$1.memo} | {empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)}
exit !{$1.limit} | {$1.max_search} | {$1.memo} | {4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)}
at at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%set<addr_t>)) = make_tuple(elem(%set<addr_t>), $1.until, -1) ;; !{$1.memo} ;; {$1.limit}
at find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search}
at push_back(%vector<tx_entry_t>, create_ex(elem(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).second, 0)) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; {filter_txio(elem(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).second, $1)}
at at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first) = (fold(at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first), (ite({filter_txio(elem(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).second, $1)}, 1, 0) + ~), %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>) + 1) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; {filter_txio(elem(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).second, $1)}
at elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second = back(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).first ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{empty(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>)}
at push_back(%vector<addr_t>, elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{(at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first) + total(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, ite({filter_txio(elem(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>).second, $1)}, 1, 0))) < $1.limit} | !{99 < size(%vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>)}
at get2(at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>))) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search}
at get2(at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>))) = 0 ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search}
at find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search}
at push_back(%vector<tx_entry_t>, create_ex(elem(%vector<txio_entry_t>), 0)) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; {filter_txio(elem(%vector<txio_entry_t>), $1)}
at erase(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)) ;; !{$1.memo} ;; {$1.limit} ;; !{empty(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {$1.max_search} ;; !{$1.max_search} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~))} | {fold(0, (total(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, find_last_range(@txio_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).first, $1.since, 0)), elem(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<addr_t,unsignedint,unsignedint>,txio_entry_t>>, 100)) + total(%vector<addr_t>, find_last_range(@txio_log, out(get2‥), at(%map<addr_t,tuple<addr_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)), %vector<txio_entry_t>, 18446744073709551615)) + ~)) < $1.max_search}
at lock_guard(@mutex) ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending}
at operator=(%tx_entry_t, elem(get_inputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second))) ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_inputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second)).address)}
at %tx_entry_t.type = tx_type_e::SPEND ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_inputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second)).address)}
at %tx_entry_t.txid = fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second.id ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second}
at %tx_entry_t.height = 4294967295 ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second}
at %tx_entry_t.is_pending = true ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second}
at push_back(%vector<tx_entry_t>, %tx_entry_t) ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second}
at operator=(%tx_entry_t, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second))) ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second)).address)}
at %tx_entry_t.type = tx_type_e::RECEIVE ;; !{$1.memo} ;; {$1.limit} ;; {$1.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(elem(%set<addr_t>), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(elem(%set<addr_t>), ctor(hash_t))), (~ + 1)).second)).address)}
at sort(begin(%vector<tx_entry_t>), end(%vector<tx_entry_t>), by({make_tuple($cb1.height, $cb1.txid, $cb1.type, $cb1.contract, $cb1.address, $cb1.memo, $cb1.amount) < make_tuple($cb0.height, $cb0.txid, $cb0.type, $cb0.contract, $cb0.address, $cb0.memo, $cb0.amount)})) ;; !{$1.memo} ;; {$1.limit}
at resize(%vector<tx_entry_t>, fold(w64(($1.limit + -1)), (~ + 1))) ;; !{$1.memo} ;; {$1.limit} ;; {0 < $1.limit} ;; {$1.limit < size(%vector<tx_entry_t>)}
fn mmx::Node::get_history_memo
never break(loop)
at make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search}
never get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search}
never get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search}
never make_tuple(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second, get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first)) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search}
never filter_txio(%txio_entry_t, $2) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; {find(@txio_log, make_tuple(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second, get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first)), %txio_entry_t, 4294967295)}
never create_ex(%txio_entry_t, 0) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; {find(@txio_log, make_tuple(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second, get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first)), %txio_entry_t, 4294967295)} ;; {filter_txio(%txio_entry_t, $2)}
never get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second) ;; {$2.limit} ;; {$2.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second}
never break(%set<addr_t>)
never break(%vector<addr_t>)
never break(get_outputs(~0.second))
each make_tuple(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), $2.until, -1) ;; {$2.limit}
each at(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, elem(%set<addr_t>)) = make_tuple(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), $2.until, -1) ;; {$2.limit}
each get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search}
each make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search}
each find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search}
each find(@txio_log, make_tuple(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second, get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first)), %txio_entry_t, 4294967295) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search}
each push_back(%vector<tx_entry_t>, create_ex(%txio_entry_t, 0)) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; {find(@txio_log, make_tuple(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second, get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first)), %txio_entry_t, 4294967295)} ;; {filter_txio(%txio_entry_t, $2)}
each at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).first) = (fold(at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).first), (ite((!{filter_txio(%txio_entry_t, $2)} || !{find(@txio_log, make_tuple(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second, get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first)), %txio_entry_t, 4294967295)}), 0, 1) + ~), %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>) + 1) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; {find(@txio_log, make_tuple(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second, get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first)), %txio_entry_t, 4294967295)} ;; {filter_txio(%txio_entry_t, $2)}
each elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second = back(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{empty(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>)}
each push_back(%vector<addr_t>, elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).first) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{(at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).first) + total(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, ite((!{filter_txio(%txio_entry_t, $2)} || !{find(@txio_log, make_tuple(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second, get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first)), %txio_entry_t, 4294967295)}), 0, 1))) < $2.limit} | !{99 < size(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>)}
each erase(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search}
each operator=(%tx_entry_t, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second))) ;; {$2.limit} ;; {$2.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).address)} ;; {elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo} ;; {$1 == elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo}
each %tx_entry_t.type = tx_type_e::RECEIVE ;; {$2.limit} ;; {$2.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).address)} ;; {elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo} ;; {$1 == elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo}
each %tx_entry_t.txid = fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second.id ;; {$2.limit} ;; {$2.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).address)} ;; {elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo} ;; {$1 == elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo}
each %tx_entry_t.height = 4294967295 ;; {$2.limit} ;; {$2.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).address)} ;; {elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo} ;; {$1 == elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo}
each %tx_entry_t.is_pending = true ;; {$2.limit} ;; {$2.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).address)} ;; {elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo} ;; {$1 == elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo}
each push_back(%vector<tx_entry_t>, %tx_entry_t) ;; {$2.limit} ;; {$2.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).address)} ;; {elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo} ;; {$1 == elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo}
each sort(begin(%vector<tx_entry_t>), end(%vector<tx_entry_t>), by({make_tuple($cb1.height, $cb1.txid, $cb1.type, $cb1.contract, $cb1.address, $cb1.memo, $cb1.amount) < make_tuple($cb0.height, $cb0.txid, $cb0.type, $cb0.contract, $cb0.address, $cb0.memo, $cb0.amount)})) ;; {$2.limit}
each resize(%vector<tx_entry_t>, fold(w64(($2.limit + -1)), (~ + 1))) ;; {$2.limit} ;; {0 < $2.limit} ;; {$2.limit < size(%vector<tx_entry_t>)}
never break(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>)
never break(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)
never break(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second))
never throw …
value fold(w64(($2.limit + -1)), (~ + 1))
value fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1))
value fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))
value fold(at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).first), (ite((!{filter_txio(%txio_entry_t, $2)} || !{find(@txio_log, make_tuple(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second, get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first)), %txio_entry_t, 4294967295)}), 0, 1) + ~), %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>)
exit {ret = ite({$2.limit}, %vector<tx_entry_t>, ctor(vector<tx_entry_t>))}
exit !{$2.limit} | {did at(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, elem(%set<addr_t>)) = make_tuple(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), $2.until, -1)}
exit !{$2.limit} | {did erase(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, elem(%vector<addr_t>))}
exit !{$2.limit} | {did find(@txio_log, make_tuple(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second, get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first)), %txio_entry_t, 4294967295)}
exit !{$2.limit} | {did find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)}
exit !{$2.limit} | {did get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second)}
exit !{$2.limit} | {did sort(begin(%vector<tx_entry_t>), end(%vector<tx_entry_t>), by({make_tuple($cb1.height, $cb1.txid, $cb1.type, $cb1.contract, $cb1.address, $cb1.memo, $cb1.amount) < make_tuple($cb0.height, $cb0.txid, $cb0.type, $cb0.contract, $cb0.address, $cb0.memo, $cb0.amount)}))}
exit !{$2.limit} | {ret = %vector<tx_entry_t>}
exit {$2.limit} | {ret = ctor(vector<tx_entry_t>)}
exit !{$2.limit} | !{$2.with_pending} | {fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ones()))}
exit !{$2.limit} | {(at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).first) + total(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, ite((!{filter_txio(%txio_entry_t, $2)} || !{find(@txio_log, make_tuple(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second, get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first)), %txio_entry_t, 4294967295)}), 0, 1))) < $2.limit} | {did push_back(%vector<addr_t>, elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).first)}
exit !{$2.limit} | {99 < size(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>)} | {did push_back(%vector<addr_t>, elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).first)}
exit !{$2.limit} | {did elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second = back(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first} | {empty(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>)}
exit !{$2.limit < size(%vector<tx_entry_t>)} | !{$2.limit} | !{0 < $2.limit} | {did resize(%vector<tx_entry_t>, fold(w64(($2.limit + -1)), (~ + 1)))}
exit !{$2.limit} | !{$2.max_search} | !{fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} | {empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)}
exit !{$2.limit} | !{filter_txio(%txio_entry_t, $2)} | !{find(@txio_log, make_tuple(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second, get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first)), %txio_entry_t, 4294967295)} | {did at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).first) = (fold(at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).first), (ite((!{filter_txio(%txio_entry_t, $2)} || !{find(@txio_log, make_tuple(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second, get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first)), %txio_entry_t, 4294967295)}), 0, 1) + ~), %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>) + 1)}
exit !{$2.limit} | !{filter_txio(%txio_entry_t, $2)} | !{find(@txio_log, make_tuple(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second, get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first)), %txio_entry_t, 4294967295)} | {did push_back(%vector<tx_entry_t>, create_ex(%txio_entry_t, 0))}
exit !{$2.limit} | {$2.max_search} | {4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)}
exit !{$2.limit < size(%vector<tx_entry_t>)} | !{$2.limit} | !{0 < $2.limit} | !{at(%vector<tx_entry_t>, fold(w64(($2.limit + -1)), (~ + 1))).height == at(%vector<tx_entry_t>, w64(($2.limit + -1))).height} | !{fold(w64(($2.limit + -1)), (~ + 1)) < size(%vector<tx_entry_t>)}
at at(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, elem(%set<addr_t>)) = make_tuple(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), $2.until, -1) ;; {$2.limit}
at get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search}
at find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search}
at find(@txio_log, make_tuple(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second, get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first)), %txio_entry_t, 4294967295) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search}
at push_back(%vector<tx_entry_t>, create_ex(%txio_entry_t, 0)) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; {find(@txio_log, make_tuple(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second, get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first)), %txio_entry_t, 4294967295)} ;; {filter_txio(%txio_entry_t, $2)}
at at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).first) = (fold(at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).first), (ite((!{filter_txio(%txio_entry_t, $2)} || !{find(@txio_log, make_tuple(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second, get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first)), %txio_entry_t, 4294967295)}), 0, 1) + ~), %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>) + 1) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; {find(@txio_log, make_tuple(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second, get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first)), %txio_entry_t, 4294967295)} ;; {filter_txio(%txio_entry_t, $2)}
at elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second = back(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{empty(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>)}
at push_back(%vector<addr_t>, elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).first) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{(at(%map<addr_t,unsignedint>, elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).first) + total(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, ite((!{filter_txio(%txio_entry_t, $2)} || !{find(@txio_log, make_tuple(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second, get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first)), %txio_entry_t, 4294967295)}), 0, 1))) < $2.limit} | !{99 < size(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>)}
at erase(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, elem(%vector<addr_t>)) ;; {$2.limit} ;; !{empty(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>)} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {$2.max_search} ;; !{$2.max_search} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search} ;; !{4294967294 < fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~))} | {fold(0, (total(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>, find_last_range(@memo_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(get0(elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second), $2.since, 0)), elem(%map<addr_t,tuple<hash_t,unsignedint,unsignedint>>).second, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, 100)) + ~)) < $2.max_search}
at lock_guard(@mutex) ;; {$2.limit} ;; {$2.with_pending}
at operator=(%tx_entry_t, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second))) ;; {$2.limit} ;; {$2.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).address)} ;; {elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo} ;; {$1 == elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo}
at %tx_entry_t.type = tx_type_e::RECEIVE ;; {$2.limit} ;; {$2.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).address)} ;; {elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo} ;; {$1 == elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo}
at %tx_entry_t.txid = fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second.id ;; {$2.limit} ;; {$2.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).address)} ;; {elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo} ;; {$1 == elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo}
at %tx_entry_t.height = 4294967295 ;; {$2.limit} ;; {$2.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).address)} ;; {elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo} ;; {$1 == elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo}
at %tx_entry_t.is_pending = true ;; {$2.limit} ;; {$2.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).address)} ;; {elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo} ;; {$1 == elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo}
at push_back(%vector<tx_entry_t>, %tx_entry_t) ;; {$2.limit} ;; {$2.with_pending} ;; !{fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)) == upper_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ones()))} ;; {fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second} ;; {has(%set<addr_t>, elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).address)} ;; {elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo} ;; {$1 == elem(get_outputs(fold(lower_bound(@tx_pool_index, pair(ctor(hash_t, (elem(%set<addr_t>) ++ $1)), ctor(hash_t))), (~ + 1)).second)).memo}
at sort(begin(%vector<tx_entry_t>), end(%vector<tx_entry_t>), by({make_tuple($cb1.height, $cb1.txid, $cb1.type, $cb1.contract, $cb1.address, $cb1.memo, $cb1.amount) < make_tuple($cb0.height, $cb0.txid, $cb0.type, $cb0.contract, $cb0.address, $cb0.memo, $cb0.amount)})) ;; {$2.limit}
at resize(%vector<tx_entry_t>, fold(w64(($2.limit + -1)), (~ + 1))) ;; {$2.limit} ;; {0 < $2.limit} ;; {$2.limit < size(%vector<tx_entry_t>)}
fn mmx::Node::get_contract
each get_contract_ex($0, 0, 0)
never throw …
exit {did get_contract_ex($0, 0, 0)}
exit {ret = get_contract_ex($0, 0, 0)}
at get_contract_ex($0, 0, 0)
fn mmx::Node::get_contract_ex
each find(@tx_index, $0, %tx_index_t, 4294967295) ;; {$1}
each $1 = ($1 + %tx_index_t.contract_read_cost + @params.min_txfee_read) ;; {$1} ;; !{$2 < ($1 + %tx_index_t.contract_read_cost + @params.min_txfee_read)}
each find(@contract_map, $0, find_value(@contract_cache, $0, 0), 4294967295) ;; !{find_value(@contract_cache, $0, 0)}
each clear(@contract_cache) ;; !{find_value(@contract_cache, $0, 0)} ;; {is<contract::Binary>(out(find‥, $0, 4294967295))} ;; {out(find‥, $0, 4294967295)} ;; {((size(@contract_cache) + 1) / 65536)}
each at(@contract_cache, $0) = out(find‥, $0, 4294967295) ;; !{find_value(@contract_cache, $0, 0)} ;; {is<contract::Binary>(out(find‥, $0, 4294967295))} ;; {out(find‥, $0, 4294967295)}
raise {$1} ;; {$2 < ($1 + %tx_index_t.contract_read_cost + @params.min_txfee_read)}
exit {ret = ite({find_value(@contract_cache, $0, 0)}, find_value(@contract_cache, $0, 0), out(find‥, $0, 4294967295))}
exit !{$1} | !{$2 < ($1 + %tx_index_t.contract_read_cost + @params.min_txfee_read)}
exit !{$1} | {did $1 = ($1 + %tx_index_t.contract_read_cost + @params.min_txfee_read)}
exit !{$1} | {did find(@tx_index, $0, %tx_index_t, 4294967295)}
exit !{find_value(@contract_cache, $0, 0)} | {ret = find_value(@contract_cache, $0, 0)}
exit {did find(@contract_map, $0, find_value(@contract_cache, $0, 0), 4294967295)} | {find_value(@contract_cache, $0, 0)}
exit {find_value(@contract_cache, $0, 0)} | {ret = out(find‥, $0, 4294967295)}
exit !{is<contract::Binary>(out(find‥, $0, 4294967295))} | !{out(find‥, $0, 4294967295)} | {did at(@contract_cache, $0) = out(find‥, $0, 4294967295)} | {find_value(@contract_cache, $0, 0)}
exit !{((size(@contract_cache) + 1) / 65536)} | !{is<contract::Binary>(out(find‥, $0, 4294967295))} | !{out(find‥, $0, 4294967295)} | {did clear(@contract_cache)} | {find_value(@contract_cache, $0, 0)}
at find(@tx_index, $0, %tx_index_t, 4294967295) ;; {$1}
at $1 = ($1 + %tx_index_t.contract_read_cost + @params.min_txfee_read) ;; {$1} ;; !{$2 < ($1 + %tx_index_t.contract_read_cost + @params.min_txfee_read)}
at lock_guard(@mutex)
at find(@contract_map, $0, find_value(@contract_cache, $0, 0), 4294967295) ;; !{find_value(@contract_cache, $0, 0)}
at clear(@contract_cache) ;; !{find_value(@contract_cache, $0, 0)} ;; {is<contract::Binary>(out(find‥, $0, 4294967295))} ;; {out(find‥, $0, 4294967295)} ;; {((size(@contract_cache) + 1) / 65536)}
at at(@contract_cache, $0) = out(find‥, $0, 4294967295) ;; !{find_value(@contract_cache, $0, 0)} ;; {is<contract::Binary>(out(find‥, $0, 4294967295))} ;; {out(find‥, $0, 4294967295)}
fn mmx::Node::get_contract_for
each get_contract_for_ex($0, 0, 0)
never throw …
exit {did get_contract_for_ex($0, 0, 0)}
exit {ret = get_contract_for_ex($0, 0, 0)}
at get_contract_for_ex($0, 0, 0)
fn mmx::Node::get_contract_for_ex
each get_contract_ex($0, $1, $2)
each %shared_ptr<contract::PubKey>.address = $0 ;; !{get_contract_ex($0, $1, $2)}
never throw …
exit {did get_contract_ex($0, $1, $2)}
exit {ret = ite({get_contract_ex($0, $1, $2)}, get_contract_ex($0, $1, $2), %shared_ptr<contract::PubKey>)}
exit !{get_contract_ex($0, $1, $2)} | {ret = get_contract_ex($0, $1, $2)}
exit {did %shared_ptr<contract::PubKey>.address = $0} | {get_contract_ex($0, $1, $2)}
exit {get_contract_ex($0, $1, $2)} | {ret = %shared_ptr<contract::PubKey>}
at get_contract_ex($0, $1, $2)
at %shared_ptr<contract::PubKey>.address = $0 ;; !{get_contract_ex($0, $1, $2)}
fn mmx::Node::get_contracts
never break($0)
each push_back(%vector<shared_ptr<Contract>>, get_contract(elem($0)))
never throw …
exit {did push_back(%vector<shared_ptr<Contract>>, get_contract(elem($0)))}
exit {ret = %vector<shared_ptr<Contract>>}
at push_back(%vector<shared_ptr<Contract>>, get_contract(elem($0)))
fn mmx::Node::get_contracts_by
never break($0)
each make_tuple(elem($0), 0, 0)
each make_tuple(elem($0), -1, -1)
each find_range(@deploy_map, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem($0), 0, 0)), ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem($0), -1, -1)), %vector<pair<addr_t,hash_t>>, 18446744073709551615)
each push_back(%vector<addr_t>, elem(%vector<pair<addr_t,hash_t>>).first) ;; !{$1} | {$1 == elem(%vector<pair<addr_t,hash_t>>).second}
never break(%vector<pair<addr_t,hash_t>>)
never throw …
exit {did find_range(@deploy_map, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem($0), 0, 0)), ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem($0), -1, -1)), %vector<pair<addr_t,hash_t>>, 18446744073709551615)}
exit {ret = %vector<addr_t>}
exit !{$1 == elem(%vector<pair<addr_t,hash_t>>).second} | {did push_back(%vector<addr_t>, elem(%vector<pair<addr_t,hash_t>>).first)}
exit {$1} | {did push_back(%vector<addr_t>, elem(%vector<pair<addr_t,hash_t>>).first)}
at find_range(@deploy_map, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem($0), 0, 0)), ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem($0), -1, -1)), %vector<pair<addr_t,hash_t>>, 18446744073709551615)
at push_back(%vector<addr_t>, elem(%vector<pair<addr_t,hash_t>>).first) ;; !{$1} | {$1 == elem(%vector<pair<addr_t,hash_t>>).second}
fn mmx::Node::get_contracts_owned_by
never break(%vector<pair<addr_t,hash_t>>)
never break($0)
each make_tuple(elem($0), 0, 0)
each make_tuple(elem($0), -1, -1)
each find_range(@owner_map, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem($0), 0, 0)), ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem($0), -1, -1)), %vector<pair<addr_t,hash_t>>, 18446744073709551615)
each push_back(%vector<addr_t>, elem(%vector<pair<addr_t,hash_t>>).first) ;; !{$1} | {$1 == elem(%vector<pair<addr_t,hash_t>>).second}
never throw …
exit {did find_range(@owner_map, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem($0), 0, 0)), ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem($0), -1, -1)), %vector<pair<addr_t,hash_t>>, 18446744073709551615)}
exit {ret = %vector<addr_t>}
exit !{$1 == elem(%vector<pair<addr_t,hash_t>>).second} | {did push_back(%vector<addr_t>, elem(%vector<pair<addr_t,hash_t>>).first)}
exit {$1} | {did push_back(%vector<addr_t>, elem(%vector<pair<addr_t,hash_t>>).first)}
at find_range(@owner_map, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem($0), 0, 0)), ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple(elem($0), -1, -1)), %vector<pair<addr_t,hash_t>>, 18446744073709551615)
at push_back(%vector<addr_t>, elem(%vector<pair<addr_t,hash_t>>).first) ;; !{$1} | {$1 == elem(%vector<pair<addr_t,hash_t>>).second}
fn mmx::Node::get_balance
each find(@balance_table, pair($0, $1), 0, 4294967295)
never throw …
exit {did find(@balance_table, pair($0, $1), 0, 4294967295)}
exit {ret = out(find‥, pair($0, $1), 4294967295)}
at find(@balance_table, pair($0, $1), 0, 4294967295)
fn mmx::Node::get_total_balance
never break(ctor(set<addr_t>, begin($0), end($0)))
never throw …
exit {ret = total(ctor(set<addr_t>, begin($0), end($0)), get_balance(elem(ctor(set<addr_t>, begin($0), end($0))), $1))}
fn mmx::Node::get_balances
never throw …
exit {ret = get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)}
fn mmx::Node::get_contract_balances
each get_contract_as($0, 0, 0)
each get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0) ;; {get_contract_as($0, 0, 0)}
each at(%map<addr_t,balance_t>, elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).first).locked = elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).second ;; {get_contract_as($0, 0, 0)} ;; {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} ;; {find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), "is_locked")} ;; {to(call_contract($0, "is_locked", ctor(vector<Variant>), 0, 0))}
each at(%map<addr_t,balance_t>, elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).first).spendable = elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).second ;; !{find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), "is_locked")} | !{get_contract_as($0, 0, 0)} | !{get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} | !{to(call_contract($0, "is_locked", ctor(vector<Variant>), 0, 0))}
each at(%map<addr_t,balance_t>, elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).first).total = elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).second
each at(%map<addr_t,balance_t>, elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).first).is_validated = !{empty($1)}
never break(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2))
never throw …
exit {did at(%map<addr_t,balance_t>, elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).first).is_validated = !{empty($1)}}
exit {did at(%map<addr_t,balance_t>, elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).first).total = elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).second}
exit {did get_contract_as($0, 0, 0)}
exit {ret = %map<addr_t,balance_t>}
exit !{get_contract_as($0, 0, 0)} | {did get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)}
exit {did at(%map<addr_t,balance_t>, elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).first).spendable = elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).second} | {find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), "is_locked")}
exit {did at(%map<addr_t,balance_t>, elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).first).spendable = elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).second} | {get_contract_as($0, 0, 0)}
exit {did at(%map<addr_t,balance_t>, elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).first).spendable = elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).second} | {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)}
exit {did at(%map<addr_t,balance_t>, elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).first).spendable = elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).second} | {to(call_contract($0, "is_locked", ctor(vector<Variant>), 0, 0))}
exit !{find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), "is_locked")} | !{get_contract_as($0, 0, 0)} | !{get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} | !{to(call_contract($0, "is_locked", ctor(vector<Variant>), 0, 0))} | {did at(%map<addr_t,balance_t>, elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).first).locked = elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).second}
at get_contract_as($0, 0, 0)
at get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0) ;; {get_contract_as($0, 0, 0)}
at at(%map<addr_t,balance_t>, elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).first).locked = elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).second ;; {get_contract_as($0, 0, 0)} ;; {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} ;; {find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), "is_locked")} ;; {to(call_contract($0, "is_locked", ctor(vector<Variant>), 0, 0))}
at at(%map<addr_t,balance_t>, elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).first).spendable = elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).second ;; !{find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), "is_locked")} | !{get_contract_as($0, 0, 0)} | !{get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} | !{to(call_contract($0, "is_locked", ctor(vector<Variant>), 0, 0))}
at at(%map<addr_t,balance_t>, elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).first).total = elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).second
at at(%map<addr_t,balance_t>, elem(get_total_balances(ctor(vector<addr_t>, init(addr_t[1], $0)), $1, $2)).first).is_validated = !{empty($1)}
fn mmx::Node::get_total_balances
never break(ctor(set<addr_t>, begin($0), end($0)))
each find_range(@balance_table, pair(elem(ctor(set<addr_t>, begin($0), end($0))), ctor(addr_t)), pair(elem(ctor(set<addr_t>, begin($0), end($0))), ones()), %vector<pair<pair<addr_t,addr_t>,uint128>>, $2) ;; {empty($1)}
each at(%map<addr_t,uint128>, elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).first.second) = (at(%map<addr_t,uint128>, elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).first.second) + elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).second) ;; {empty($1)} ;; {elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).second}
each find(@balance_table, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1)), 0, 4294967295) ;; !{empty($1)}
each at(%map<addr_t,uint128>, elem($1)) = (at(%map<addr_t,uint128>, elem($1)) + out(find‥, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1)), 4294967295)) ;; !{empty($1)} ;; {out(find‥, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1)), 4294967295)}
never break(%vector<pair<pair<addr_t,addr_t>,uint128>>)
never break($1)
never throw …
exit {ret = %map<addr_t,uint128>}
exit !{empty($1)} | {did find_range(@balance_table, pair(elem(ctor(set<addr_t>, begin($0), end($0))), ctor(addr_t)), pair(elem(ctor(set<addr_t>, begin($0), end($0))), ones()), %vector<pair<pair<addr_t,addr_t>,uint128>>, $2)}
exit {did find(@balance_table, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1)), 0, 4294967295)} | {empty($1)}
exit !{elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).second} | !{empty($1)} | {did at(%map<addr_t,uint128>, elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).first.second) = (at(%map<addr_t,uint128>, elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).first.second) + elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).second)}
exit !{out(find‥, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1)), 4294967295)} | {did at(%map<addr_t,uint128>, elem($1)) = (at(%map<addr_t,uint128>, elem($1)) + out(find‥, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1)), 4294967295))} | {empty($1)}
at find_range(@balance_table, pair(elem(ctor(set<addr_t>, begin($0), end($0))), ctor(addr_t)), pair(elem(ctor(set<addr_t>, begin($0), end($0))), ones()), %vector<pair<pair<addr_t,addr_t>,uint128>>, $2) ;; {empty($1)}
at at(%map<addr_t,uint128>, elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).first.second) = (at(%map<addr_t,uint128>, elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).first.second) + elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).second) ;; {empty($1)} ;; {elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).second}
at find(@balance_table, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1)), 0, 4294967295) ;; !{empty($1)}
at at(%map<addr_t,uint128>, elem($1)) = (at(%map<addr_t,uint128>, elem($1)) + out(find‥, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1)), 4294967295)) ;; !{empty($1)} ;; {out(find‥, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1)), 4294967295)}
fn mmx::Node::get_all_balances
never break(%vector<pair<pair<addr_t,addr_t>,uint128>>)
never break($1)
never break(ctor(set<addr_t>, begin($0), end($0)))
each find_range(@balance_table, pair(elem(ctor(set<addr_t>, begin($0), end($0))), ctor(addr_t)), pair(elem(ctor(set<addr_t>, begin($0), end($0))), ones()), %vector<pair<pair<addr_t,addr_t>,uint128>>, $2) ;; {empty($1)}
each at(%map<pair<addr_t,addr_t>,uint128>, elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).first) = (at(%map<pair<addr_t,addr_t>,uint128>, elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).first) + elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).second) ;; {empty($1)} ;; {elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).second}
each find(@balance_table, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1)), 0, 4294967295) ;; !{empty($1)}
each at(%map<pair<addr_t,addr_t>,uint128>, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1))) = (at(%map<pair<addr_t,addr_t>,uint128>, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1))) + out(find‥, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1)), 4294967295)) ;; !{empty($1)} ;; {out(find‥, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1)), 4294967295)}
never throw …
exit {ret = %map<pair<addr_t,addr_t>,uint128>}
exit !{empty($1)} | {did find_range(@balance_table, pair(elem(ctor(set<addr_t>, begin($0), end($0))), ctor(addr_t)), pair(elem(ctor(set<addr_t>, begin($0), end($0))), ones()), %vector<pair<pair<addr_t,addr_t>,uint128>>, $2)}
exit {did find(@balance_table, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1)), 0, 4294967295)} | {empty($1)}
exit !{elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).second} | !{empty($1)} | {did at(%map<pair<addr_t,addr_t>,uint128>, elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).first) = (at(%map<pair<addr_t,addr_t>,uint128>, elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).first) + elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).second)}
exit !{out(find‥, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1)), 4294967295)} | {did at(%map<pair<addr_t,addr_t>,uint128>, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1))) = (at(%map<pair<addr_t,addr_t>,uint128>, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1))) + out(find‥, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1)), 4294967295))} | {empty($1)}
at find_range(@balance_table, pair(elem(ctor(set<addr_t>, begin($0), end($0))), ctor(addr_t)), pair(elem(ctor(set<addr_t>, begin($0), end($0))), ones()), %vector<pair<pair<addr_t,addr_t>,uint128>>, $2) ;; {empty($1)}
at at(%map<pair<addr_t,addr_t>,uint128>, elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).first) = (at(%map<pair<addr_t,addr_t>,uint128>, elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).first) + elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).second) ;; {empty($1)} ;; {elem(%vector<pair<pair<addr_t,addr_t>,uint128>>).second}
at find(@balance_table, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1)), 0, 4294967295) ;; !{empty($1)}
at at(%map<pair<addr_t,addr_t>,uint128>, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1))) = (at(%map<pair<addr_t,addr_t>,uint128>, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1))) + out(find‥, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1)), 4294967295)) ;; !{empty($1)} ;; {out(find‥, pair(elem(ctor(set<addr_t>, begin($0), end($0))), elem($1)), 4294967295)}
fn mmx::Node::get_exec_history
each make_tuple($0, 0, 0) ;; {$2}
each make_tuple($0, -1, -1) ;; {$2}
each find_last_range(@exec_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple($0, 0, 0)), ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple($0, -1, -1)), %vector<exec_entry_t>, $1) ;; {$2}
each make_tuple($0, 0, 0) ;; !{$2}
each make_tuple($0, -1, -1) ;; !{$2}
each find_range(@exec_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple($0, 0, 0)), ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple($0, -1, -1)), %vector<exec_entry_t>, $1) ;; !{$2}
never throw …
exit {ret = %vector<exec_entry_t>}
exit !{$2} | {did find_last_range(@exec_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple($0, 0, 0)), ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple($0, -1, -1)), %vector<exec_entry_t>, $1)}
exit {$2} | {did find_range(@exec_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple($0, 0, 0)), ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple($0, -1, -1)), %vector<exec_entry_t>, $1)}
at find_last_range(@exec_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple($0, 0, 0)), ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple($0, -1, -1)), %vector<exec_entry_t>, $1) ;; {$2}
at find_range(@exec_log, ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple($0, 0, 0)), ctor(tuple<addr_t,unsignedint,unsignedint>, make_tuple($0, -1, -1)), %vector<exec_entry_t>, $1) ;; !{$2}
fn mmx::Node::read_storage
each at(%map<string,vm::varptr_t,less<string>,allocator<pair<string,vm::varptr_t>>>, elem(get_contract(get_contract($0).binary).fields).first) = ctor(vm::varptr_t, read_ex(@storage, $0, elem(get_contract(get_contract($0).binary).fields).second, $1)) ;; {is<contract::Executable>(get_contract($0))} ;; {get_contract($0)} ;; {is<contract::Binary>(get_contract(get_contract($0).binary))} ;; {get_contract(get_contract($0).binary)} ;; {read_ex(@storage, $0, elem(get_contract(get_contract($0).binary).fields).second, $1)}
never break(get_contract(get_contract($0).binary).fields)
never throw …
exit {ret = %map<string,vm::varptr_t,less<string>,allocator<pair<string,vm::varptr_t>>>}
at at(%map<string,vm::varptr_t,less<string>,allocator<pair<string,vm::varptr_t>>>, elem(get_contract(get_contract($0).binary).fields).first) = ctor(vm::varptr_t, read_ex(@storage, $0, elem(get_contract(get_contract($0).binary).fields).second, $1)) ;; {is<contract::Executable>(get_contract($0))} ;; {get_contract($0)} ;; {is<contract::Binary>(get_contract(get_contract($0).binary))} ;; {get_contract(get_contract($0).binary)} ;; {read_ex(@storage, $0, elem(get_contract(get_contract($0).binary).fields).second, $1)}
fn mmx::Node::dump_storage
never throw …
exit {ret = ctor(map<unsignedlong,vm::varptr_t>, begin(find_range(@storage, $0, MEM_STATIC, 18446744073709551615, $1)), end(find_range(@storage, $0, MEM_STATIC, 18446744073709551615, $1)))}
fn mmx::Node::read_storage_var
never throw …
exit {ret = ctor(vm::varptr_t, read_ex(@storage, $0, $1, $2))}
fn mmx::Node::read_storage_entry_var sig=(const~mmx::addr_t~&,~const~unsigned~long~&,~const~unsigned~long~&,~const~unsigned~int~&)~const
never throw …
exit {ret = ctor(vm::varptr_t, read_ex(@storage, $0, $1, $2, $3))}
fn mmx::Node::read_storage_entry_var sig=(const~mmx::addr_t~&,~const~std::basic_string<char,~std::char_traits<char>,~std::allocator<char>>~&,~const~mmx::vm::varptr_t~&,~const~unsigned~int~&)~const
each make_tuple(read_storage_entry_var($0, ite({read_storage_field($0, $1, $3).first.type == vm::TYPE_REF}, to_ref(read_storage_field($0, $1, $3).first), read_storage_field($0, $1, $3).second), lookup(@storage, $0, $2), $3), ite({read_storage_field($0, $1, $3).first.type == vm::TYPE_REF}, to_ref(read_storage_field($0, $1, $3).first), read_storage_field($0, $1, $3).second), lookup(@storage, $0, $2)) ;; {read_storage_field($0, $1, $3).first} ;; {lookup(@storage, $0, $2)}
never throw …
exit {ret = ite((!{lookup(@storage, $0, $2)} || !{read_storage_field($0, $1, $3).first}), ctor(tuple<vm::varptr_t,unsignedlong,unsignedlong>), make_tuple(read_storage_entry_var($0, ite({read_storage_field($0, $1, $3).first.type == vm::TYPE_REF}, to_ref(read_storage_field($0, $1, $3).first), read_storage_field($0, $1, $3).second), lookup(@storage, $0, $2), $3), ite({read_storage_field($0, $1, $3).first.type == vm::TYPE_REF}, to_ref(read_storage_field($0, $1, $3).first), read_storage_field($0, $1, $3).second), lookup(@storage, $0, $2)))}
exit {lookup(@storage, $0, $2)} | {ret = ctor(tuple<vm::varptr_t,unsignedlong,unsignedlong>)}
exit {read_storage_field($0, $1, $3).first} | {ret = ctor(tuple<vm::varptr_t,unsignedlong,unsignedlong>)}
exit !{lookup(@storage, $0, $2)} | !{read_storage_field($0, $1, $3).first} | {ret = make_tuple(read_storage_entry_var($0, ite({read_storage_field($0, $1, $3).first.type == vm::TYPE_REF}, to_ref(read_storage_field($0, $1, $3).first), read_storage_field($0, $1, $3).second), lookup(@storage, $0, $2), $3), ite({read_storage_field($0, $1, $3).first.type == vm::TYPE_REF}, to_ref(read_storage_field($0, $1, $3).first), read_storage_field($0, $1, $3).second), lookup(@storage, $0, $2))}
fn mmx::Node::read_storage_field
each get_contract_as($0, 0, 0)
each get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0) ;; {get_contract_as($0, 0, 0)}
never throw …
exit {did get_contract_as($0, 0, 0)}
exit {ret = ite((!{find_field(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1)} || !{get_contract_as($0, 0, 0)} || !{get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)}), ctor(pair<vm::varptr_t,unsignedlong>), pair(read_storage_var($0, find_field(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1), $2), find_field(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1)))}
exit {find_field(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1)} | {ret = ctor(pair<vm::varptr_t,unsignedlong>)}
exit {get_contract_as($0, 0, 0)} | {ret = ctor(pair<vm::varptr_t,unsignedlong>)}
exit {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} | {ret = ctor(pair<vm::varptr_t,unsignedlong>)}
exit !{get_contract_as($0, 0, 0)} | {did get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} | {find_field(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1)}
exit !{get_contract_as($0, 0, 0)} | {did get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} | {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)}
exit !{find_field(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1)} | !{get_contract_as($0, 0, 0)} | !{get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} | {did get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)}
exit !{find_field(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1)} | !{get_contract_as($0, 0, 0)} | !{get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} | {ret = pair(read_storage_var($0, find_field(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1), $2), find_field(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1))}
at get_contract_as($0, 0, 0)
at get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0) ;; {get_contract_as($0, 0, 0)}
fn mmx::Node::read_storage_entry_addr
never throw …
exit {ret = read_storage_entry_var($0, $1, ctor(vm::varptr_t, to_binary($2)), $3)}
fn mmx::Node::read_storage_entry_string
never throw …
exit {ret = read_storage_entry_var($0, $1, ctor(vm::varptr_t, to_binary($2, vm::TYPE_STRING)), $3)}
fn mmx::Node::read_storage_array
never throw …
exit {ret = read_array(@storage, $0, $1, $2)}
fn mmx::Node::read_storage_map
each %shared_ptr<vm::Engine>.gas_limit = @params.max_tx_cost ;; {is<contract::Executable>(get_contract($0))} ;; {get_contract($0)} ;; {is<contract::Binary>(get_contract(get_contract($0).binary))} ;; {get_contract(get_contract($0).binary)}
each load(%shared_ptr<vm::Engine>, get_contract(get_contract($0).binary)) ;; {is<contract::Executable>(get_contract($0))} ;; {get_contract($0)} ;; {is<contract::Binary>(get_contract(get_contract($0).binary))} ;; {get_contract(get_contract($0).binary)}
each read(%shared_ptr<vm::Engine>, elem(find_entries(@storage, $0, $1, $2)).first, false) ;; {is<contract::Executable>(get_contract($0))} ;; {get_contract($0)} ;; {is<contract::Binary>(get_contract(get_contract($0).binary))} ;; {get_contract(get_contract($0).binary)}
each at(%map<vm::varptr_t,vm::varptr_t>, ctor(vm::varptr_t, clone(read(%shared_ptr<vm::Engine>, elem(find_entries(@storage, $0, $1, $2)).first, false)))) = elem(find_entries(@storage, $0, $1, $2)).second ;; {is<contract::Executable>(get_contract($0))} ;; {get_contract($0)} ;; {is<contract::Binary>(get_contract(get_contract($0).binary))} ;; {get_contract(get_contract($0).binary)} ;; {read(%shared_ptr<vm::Engine>, elem(find_entries(@storage, $0, $1, $2)).first, false)}
never break(find_entries(@storage, $0, $1, $2))
never throw …
exit {ret = %map<vm::varptr_t,vm::varptr_t>}
exit !{get_contract($0)} | !{get_contract(get_contract($0).binary)} | !{is<contract::Binary>(get_contract(get_contract($0).binary))} | !{is<contract::Executable>(get_contract($0))} | {did %shared_ptr<vm::Engine>.gas_limit = @params.max_tx_cost}
exit !{get_contract($0)} | !{get_contract(get_contract($0).binary)} | !{is<contract::Binary>(get_contract(get_contract($0).binary))} | !{is<contract::Executable>(get_contract($0))} | {did load(%shared_ptr<vm::Engine>, get_contract(get_contract($0).binary))}
exit !{get_contract($0)} | !{get_contract(get_contract($0).binary)} | !{is<contract::Binary>(get_contract(get_contract($0).binary))} | !{is<contract::Executable>(get_contract($0))} | {did read(%shared_ptr<vm::Engine>, elem(find_entries(@storage, $0, $1, $2)).first, false)}
at %shared_ptr<vm::Engine>.gas_limit = @params.max_tx_cost ;; {is<contract::Executable>(get_contract($0))} ;; {get_contract($0)} ;; {is<contract::Binary>(get_contract(get_contract($0).binary))} ;; {get_contract(get_contract($0).binary)}
at load(%shared_ptr<vm::Engine>, get_contract(get_contract($0).binary)) ;; {is<contract::Executable>(get_contract($0))} ;; {get_contract($0)} ;; {is<contract::Binary>(get_contract(get_contract($0).binary))} ;; {get_contract(get_contract($0).binary)}
at read(%shared_ptr<vm::Engine>, elem(find_entries(@storage, $0, $1, $2)).first, false) ;; {is<contract::Executable>(get_contract($0))} ;; {get_contract($0)} ;; {is<contract::Binary>(get_contract(get_contract($0).binary))} ;; {get_contract(get_contract($0).binary)}
at at(%map<vm::varptr_t,vm::varptr_t>, ctor(vm::varptr_t, clone(read(%shared_ptr<vm::Engine>, elem(find_entries(@storage, $0, $1, $2)).first, false)))) = elem(find_entries(@storage, $0, $1, $2)).second ;; {is<contract::Executable>(get_contract($0))} ;; {get_contract($0)} ;; {is<contract::Binary>(get_contract(get_contract($0).binary))} ;; {get_contract(get_contract($0).binary)} ;; {read(%shared_ptr<vm::Engine>, elem(find_entries(@storage, $0, $1, $2)).first, false)}
fn mmx::Node::read_storage_object
each at(%map<string,vm::varptr_t,less<string>,allocator<pair<string,vm::varptr_t>>>, to_string_value(elem(read_storage_map($0, $1, $2)).first)) = elem(read_storage_map($0, $1, $2)).second
never break(read_storage_map($0, $1, $2))
never throw …
exit {did at(%map<string,vm::varptr_t,less<string>,allocator<pair<string,vm::varptr_t>>>, to_string_value(elem(read_storage_map($0, $1, $2)).first)) = elem(read_storage_map($0, $1, $2)).second}
exit {ret = %map<string,vm::varptr_t,less<string>,allocator<pair<string,vm::varptr_t>>>}
at at(%map<string,vm::varptr_t,less<string>,allocator<pair<string,vm::varptr_t>>>, to_string_value(elem(read_storage_map($0, $1, $2)).first)) = elem(read_storage_map($0, $1, $2)).second
fn mmx::Node::get_total_supply
each find(@total_supply_map, $0, 0, 4294967295)
never throw …
exit {did find(@total_supply_map, $0, 0, 4294967295)}
exit {ret = clamped_sub(out(find‥, $0, 4294967295), get_balance(ctor(addr_t), $0))}
at find(@total_supply_map, $0, 0, 4294967295)
fn mmx::Node::get_farmed_blocks
never break($0)
each find_last_range(@farmer_block_map, pair(elem($0), $2), pair(elem($0), -1), %vector<farmed_block_info_t>, $3)
each insert(%vector<farmed_block_info_t>, end(%vector<farmed_block_info_t>), begin(%vector<farmed_block_info_t>), end(%vector<farmed_block_info_t>))
each sort(begin(%vector<farmed_block_info_t>), end(%vector<farmed_block_info_t>), by({$cb1.height < $cb0.height}))
each resize(%vector<farmed_block_info_t>, $3) ;; {-1 < $3} ;; {$3 < size(%vector<farmed_block_info_t>)}
each reverse(begin(%vector<farmed_block_info_t>), end(%vector<farmed_block_info_t>)) ;; !{-1 < $3}
each push_back(%vector<shared_ptr<BlockHeader>>, get_block_at_ex(elem(%vector<farmed_block_info_t>).height, $1))
never break(%vector<farmed_block_info_t>)
never throw …
exit {did find_last_range(@farmer_block_map, pair(elem($0), $2), pair(elem($0), -1), %vector<farmed_block_info_t>, $3)}
exit {did push_back(%vector<shared_ptr<BlockHeader>>, get_block_at_ex(elem(%vector<farmed_block_info_t>).height, $1))}
exit {did sort(begin(%vector<farmed_block_info_t>), end(%vector<farmed_block_info_t>), by({$cb1.height < $cb0.height}))}
exit {ret = %vector<shared_ptr<BlockHeader>>}
exit {-1 < $3} | {did reverse(begin(%vector<farmed_block_info_t>), end(%vector<farmed_block_info_t>))}
exit {did insert(%vector<farmed_block_info_t>, end(%vector<farmed_block_info_t>), begin(%vector<farmed_block_info_t>), end(%vector<farmed_block_info_t>))} | {empty($0)}
exit !{$3 < size(%vector<farmed_block_info_t>)} | !{-1 < $3} | {did resize(%vector<farmed_block_info_t>, $3)}
at find_last_range(@farmer_block_map, pair(elem($0), $2), pair(elem($0), -1), %vector<farmed_block_info_t>, $3)
at insert(%vector<farmed_block_info_t>, end(%vector<farmed_block_info_t>), begin(%vector<farmed_block_info_t>), end(%vector<farmed_block_info_t>))
at sort(begin(%vector<farmed_block_info_t>), end(%vector<farmed_block_info_t>), by({$cb1.height < $cb0.height}))
at resize(%vector<farmed_block_info_t>, $3) ;; {-1 < $3} ;; {$3 < size(%vector<farmed_block_info_t>)}
at reverse(begin(%vector<farmed_block_info_t>), end(%vector<farmed_block_info_t>)) ;; !{-1 < $3}
at push_back(%vector<shared_ptr<BlockHeader>>, get_block_at_ex(elem(%vector<farmed_block_info_t>).height, $1))
fn mmx::Node::get_farmed_block_summary
never break(%vector<farmed_block_info_t>)
never break($0)
each find_range(@farmer_block_map, pair(elem($0), $1), pair(elem($0), -1), %vector<farmed_block_info_t>, 18446744073709551615)
each %farmed_block_summary_t.num_blocks = (%farmed_block_summary_t.num_blocks + 1)
each %farmed_block_summary_t.last_height = max(%farmed_block_summary_t.last_height, elem(%vector<farmed_block_info_t>).height)
each %farmed_block_summary_t.total_rewards = (%farmed_block_summary_t.total_rewards + elem(%vector<farmed_block_info_t>).reward)
each at(%farmed_block_summary_t.reward_map, elem(%vector<farmed_block_info_t>).reward_addr) = (at(%farmed_block_summary_t.reward_map, elem(%vector<farmed_block_info_t>).reward_addr) + elem(%vector<farmed_block_info_t>).reward)
never throw …
exit {did %farmed_block_summary_t.last_height = max(%farmed_block_summary_t.last_height, elem(%vector<farmed_block_info_t>).height)}
exit {did %farmed_block_summary_t.total_rewards = (%farmed_block_summary_t.total_rewards + elem(%vector<farmed_block_info_t>).reward)}
exit {did at(%farmed_block_summary_t.reward_map, elem(%vector<farmed_block_info_t>).reward_addr) = (at(%farmed_block_summary_t.reward_map, elem(%vector<farmed_block_info_t>).reward_addr) + elem(%vector<farmed_block_info_t>).reward)}
exit {did find_range(@farmer_block_map, pair(elem($0), $1), pair(elem($0), -1), %vector<farmed_block_info_t>, 18446744073709551615)}
exit {ret = %farmed_block_summary_t}
exit {did %farmed_block_summary_t.num_blocks = (%farmed_block_summary_t.num_blocks + 1)} | {empty($0)} | {empty(%vector<farmed_block_info_t>)}
at find_range(@farmer_block_map, pair(elem($0), $1), pair(elem($0), -1), %vector<farmed_block_info_t>, 18446744073709551615)
at %farmed_block_summary_t.num_blocks = (%farmed_block_summary_t.num_blocks + 1)
at %farmed_block_summary_t.last_height = max(%farmed_block_summary_t.last_height, elem(%vector<farmed_block_info_t>).height)
at %farmed_block_summary_t.total_rewards = (%farmed_block_summary_t.total_rewards + elem(%vector<farmed_block_info_t>).reward)
at at(%farmed_block_summary_t.reward_map, elem(%vector<farmed_block_info_t>).reward_addr) = (at(%farmed_block_summary_t.reward_map, elem(%vector<farmed_block_info_t>).reward_addr) + elem(%vector<farmed_block_info_t>).reward)
fn mmx::Node::get_farmer_ranking
each push_back(%vector<pair<pubkey_t,unsignedint>>, elem(@farmer_ranking)) ;; {-1 < $0} ;; {size(%vector<pair<pubkey_t,unsignedint>>) < $0}
never throw …
exit {ret = ite({-1 < $0}, %vector<pair<pubkey_t,unsignedint>>, @farmer_ranking)}
exit !{-1 < $0} | {ret = %vector<pair<pubkey_t,unsignedint>>}
exit {-1 < $0} | {ret = @farmer_ranking}
exit !{-1 < $0} | !{size(%vector<pair<pubkey_t,unsignedint>>) < $0} | {did push_back(%vector<pair<pubkey_t,unsignedint>>, elem(@farmer_ranking))}
exit !{-1 < $0} | {did break(@farmer_ranking)} | {size(%vector<pair<pubkey_t,unsignedint>>) < $0}
at push_back(%vector<pair<pubkey_t,unsignedint>>, elem(@farmer_ranking)) ;; {-1 < $0} ;; {size(%vector<pair<pubkey_t,unsignedint>>) < $0}
never break(@farmer_ranking) ;; {-1 < $0} ;; !{size(%vector<pair<pubkey_t,unsignedint>>) < $0}
fn mmx::filter_txio
never throw …
true !{$1.type} | {$0.type == $1.type}
true {empty($1.currency)} | {has($1.currency, $0.contract)}
false !{empty($1.currency)} | {$1.type}
false !{has($1.currency, $0.contract)} | {$1.type}
false !{$0.type == $1.type} | !{empty($1.currency)}
false !{$0.type == $1.type} | !{has($1.currency, $0.contract)}
