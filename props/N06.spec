tus src/Node.cpp
fn mmx::Node::apply sig=execution_context_t
never break(loop)
at make_tuple(ctor(hash_t, (elem(get_outputs($0, @params)).address ++ elem(get_outputs($0, @params)).memo)), $0.height, fold(0, (out(make_tuple‥, elem(get_outputs($0, @params)).address, $0.height) + 1), get_outputs($0, @params))) ;; {$0.prev == @state_hash} ;; {elem(get_outputs($0, @params)).memo}
at insert(@memo_log, make_tuple(ctor(hash_t, (elem(get_outputs($0, @params)).address ++ elem(get_outputs($0, @params)).memo)), $0.height, fold(0, (out(make_tuple‥, elem(get_outputs($0, @params)).address, $0.height) + 1), get_outputs($0, @params))), elem(get_outputs($0, @params)).address) ;; {$0.prev == @state_hash} ;; {elem(get_outputs($0, @params)).memo}
at make_tuple(elem(get_outputs($0, @params)).address, $0.height, ite({elem(get_outputs($0, @params)).memo}, out(make_tuple‥, ctor(hash_t, (elem(get_outputs($0, @params)).address ++ elem(get_outputs($0, @params)).memo)), $0.height), fold(0, (out(make_tuple‥, elem(get_outputs($0, @params)).address, $0.height) + 1), get_outputs($0, @params)))) ;; {$0.prev == @state_hash}
at insert(@txio_log, make_tuple(elem(get_outputs($0, @params)).address, $0.height, ite({elem(get_outputs($0, @params)).memo}, out(make_tuple‥, ctor(hash_t, (elem(get_outputs($0, @params)).address ++ elem(get_outputs($0, @params)).memo)), $0.height), fold(0, (out(make_tuple‥, elem(get_outputs($0, @params)).address, $0.height) + 1), get_outputs($0, @params)))), elem(get_outputs($0, @params))) ;; {$0.prev == @state_hash}
at make_tuple(ctor(hash_t, (elem(get_inputs($0, @params)).address ++ elem(get_inputs($0, @params)).memo)), $0.height, fold(fold(0, (out(make_tuple‥, elem(get_outputs($0, @params)).address, $0.height) + 1), get_outputs($0, @params)), (out(make_tuple‥, elem(get_inputs($0, @params)).address, $0.height) + 1), get_inputs($0, @params))) ;; {$0.prev == @state_hash} ;; {elem(get_inputs($0, @params)).memo}
at insert(@memo_log, make_tuple(ctor(hash_t, (elem(get_inputs($0, @params)).address ++ elem(get_inputs($0, @params)).memo)), $0.height, fold(fold(0, (out(make_tuple‥, elem(get_outputs($0, @params)).address, $0.height) + 1), get_outputs($0, @params)), (out(make_tuple‥, elem(get_inputs($0, @params)).address, $0.height) + 1), get_inputs($0, @params))), elem(get_inputs($0, @params)).address) ;; {$0.prev == @state_hash} ;; {elem(get_inputs($0, @params)).memo}
at make_tuple(elem(get_inputs($0, @params)).address, $0.height, ite({elem(get_inputs($0, @params)).memo}, out(make_tuple‥, ctor(hash_t, (elem(get_inputs($0, @params)).address ++ elem(get_inputs($0, @params)).memo)), $0.height), fold(fold(0, (out(make_tuple‥, elem(get_outputs($0, @params)).address, $0.height) + 1), get_outputs($0, @params)), (out(make_tuple‥, elem(get_inputs($0, @params)).address, $0.height) + 1), get_inputs($0, @params)))) ;; {$0.prev == @state_hash}
at insert(@txio_log, make_tuple(elem(get_inputs($0, @params)).address, $0.height, ite({elem(get_inputs($0, @params)).memo}, out(make_tuple‥, ctor(hash_t, (elem(get_inputs($0, @params)).address ++ elem(get_inputs($0, @params)).memo)), $0.height), fold(fold(0, (out(make_tuple‥, elem(get_outputs($0, @params)).address, $0.height) + 1), get_outputs($0, @params)), (out(make_tuple‥, elem(get_inputs($0, @params)).address, $0.height) + 1), get_inputs($0, @params)))), elem(get_inputs($0, @params))) ;; {$0.prev == @state_hash}
at apply($0, elem(get_transactions($0)), fold(fold(fold(0, (out(make_tuple‥, elem(get_outputs($0, @params)).address, $0.height) + 1), get_outputs($0, @params)), (out(make_tuple‥, elem(get_inputs($0, @params)).address, $0.height) + 1), get_inputs($0, @params)), ite((!{elem(get_transactions($0))} || ({elem(get_transactions($0)).exec_result.did_fail} && {elem(get_transactions($0)).exec_result})), ~, out(apply‥, $0, elem(get_transactions($0)))), get_transactions($0))) ;; {$0.prev == @state_hash} ;; {elem(get_transactions($0))} ;; !{elem(get_transactions($0)).exec_result.did_fail} | !{elem(get_transactions($0)).exec_result}
at erase(@tx_queue, fold(begin(@tx_queue), ite({has(%unordered_set<hash_t>, ~.second.id)}, erase(@tx_queue, ~), (~ + 1)))) ;; {$0.prev == @state_hash} ;; !{end(@tx_queue) == fold(begin(@tx_queue), ite({has(%unordered_set<hash_t>, ~.second.id)}, erase(@tx_queue, ~), (~ + 1)))} ;; {has(%unordered_set<hash_t>, fold(begin(@tx_queue), ite({has(%unordered_set<hash_t>, ~.second.id)}, erase(@tx_queue, ~), (~ + 1))).second.id)}
each insert(%set<pair<addr_t,addr_t>>, elem(get_inputs($0, @params)).address, elem(get_inputs($0, @params)).contract) ;; {$0.prev == @state_hash}
each insert(%set<pair<addr_t,addr_t>>, elem(get_outputs($0, @params)).address, elem(get_outputs($0, @params)).contract) ;; {$0.prev == @state_hash}
each make_tuple(ctor(hash_t, (elem(get_outputs($0, @params)).address ++ elem(get_outputs($0, @params)).memo)), $0.height, fold(0, (out(make_tuple‥, elem(get_outputs($0, @params)).address, $0.height) + 1), get_outputs($0, @params))) ;; {$0.prev == @state_hash} ;; {elem(get_outputs($0, @params)).memo}
each insert(@memo_log, make_tuple(ctor(hash_t, (elem(get_outputs($0, @params)).address ++ elem(get_outputs($0, @params)).memo)), $0.height, fold(0, (out(make_tuple‥, elem(get_outputs($0, @params)).address, $0.height) + 1), get_outputs($0, @params))), elem(get_outputs($0, @params)).address) ;; {$0.prev == @state_hash} ;; {elem(get_outputs($0, @params)).memo}
each make_tuple(elem(get_outputs($0, @params)).address, $0.height, ite({elem(get_outputs($0, @params)).memo}, out(make_tuple‥, ctor(hash_t, (elem(get_outputs($0, @params)).address ++ elem(get_outputs($0, @params)).memo)), $0.height), fold(0, (out(make_tuple‥, elem(get_outputs($0, @params)).address, $0.height) + 1), get_outputs($0, @params)))) ;; {$0.prev == @state_hash}
each insert(@txio_log, make_tuple(elem(get_outputs($0, @params)).address, $0.height, ite({elem(get_outputs($0, @params)).memo}, out(make_tuple‥, ctor(hash_t, (elem(get_outputs($0, @params)).address ++ elem(get_outputs($0, @params)).memo)), $0.height), fold(0, (out(make_tuple‥, elem(get_outputs($0, @params)).address, $0.height) + 1), get_outputs($0, @params)))), elem(get_outputs($0, @params))) ;; {$0.prev == @state_hash}
each get(%balance_cache_t, elem(get_outputs($0, @params)).address, elem(get_outputs($0, @params)).contract) ;; {$0.prev == @state_hash}
each get(%balance_cache_t, elem(get_outputs($0, @params)).address, elem(get_outputs($0, @params)).contract) = (elem(get_outputs($0, @params)).amount + get(%balance_cache_t, elem(get_outputs($0, @params)).address, elem(get_outputs($0, @params)).contract)) ;; {$0.prev == @state_hash}
each at(%unordered_map<addr_t,uint128_t>, elem(get_outputs($0, @params)).contract) = (at(%unordered_map<addr_t,uint128_t>, elem(get_outputs($0, @params)).contract) + elem(get_outputs($0, @params)).amount) ;; {$0.prev == @state_hash}
each find(%balance_cache_t, elem(get_inputs($0, @params)).address, elem(get_inputs($0, @params)).contract) ;; {$0.prev == @state_hash}
each clamped_sub_assign(find(%balance_cache_t, elem(get_inputs($0, @params)).address, elem(get_inputs($0, @params)).contract), elem(get_inputs($0, @params)).amount) ;; {$0.prev == @state_hash} ;; {has(%balance_cache_t, elem(get_inputs($0, @params)).address)}
each make_tuple(ctor(hash_t, (elem(get_inputs($0, @params)).address ++ elem(get_inputs($0, @params)).memo)), $0.height, fold(fold(0, (out(make_tuple‥, elem(get_outputs($0, @params)).address, $0.height) + 1), get_outputs($0, @params)), (out(make_tuple‥, elem(get_inputs($0, @params)).address, $0.height) + 1), get_inputs($0, @params))) ;; {$0.prev == @state_hash} ;; {elem(get_inputs($0, @params)).memo}
each insert(@memo_log, make_tuple(ctor(hash_t, (elem(get_inputs($0, @params)).address ++ elem(get_inputs($0, @params)).memo)), $0.height, fold(fold(0, (out(make_tuple‥, elem(get_outputs($0, @params)).address, $0.height) + 1), get_outputs($0, @params)), (out(make_tuple‥, elem(get_inputs($0, @params)).address, $0.height) + 1), get_inputs($0, @params))), elem(get_inputs($0, @params)).address) ;; {$0.prev == @state_hash} ;; {elem(get_inputs($0, @params)).memo}
each make_tuple(elem(get_inputs($0, @params)).address, $0.height, ite({elem(get_inputs($0, @params)).memo}, out(make_tuple‥, ctor(hash_t, (elem(get_inputs($0, @params)).address ++ elem(get_inputs($0, @params)).memo)), $0.height), fold(fold(0, (out(make_tuple‥, elem(get_outputs($0, @params)).address, $0.height) + 1), get_outputs($0, @params)), (out(make_tuple‥, elem(get_inputs($0, @params)).address, $0.height) + 1), get_inputs($0, @params)))) ;; {$0.prev == @state_hash}
each insert(@txio_log, make_tuple(elem(get_inputs($0, @params)).address, $0.height, ite({elem(get_inputs($0, @params)).memo}, out(make_tuple‥, ctor(hash_t, (elem(get_inputs($0, @params)).address ++ elem(get_inputs($0, @params)).memo)), $0.height), fold(fold(0, (out(make_tuple‥, elem(get_outputs($0, @params)).address, $0.height) + 1), get_outputs($0, @params)), (out(make_tuple‥, elem(get_inputs($0, @params)).address, $0.height) + 1), get_inputs($0, @params)))), elem(get_inputs($0, @params))) ;; {$0.prev == @state_hash}
each clamped_sub_assign(at(%unordered_map<addr_t,uint128_t>, elem(get_inputs($0, @params)).contract), elem(get_inputs($0, @params)).amount) ;; {$0.prev == @state_hash}
each apply($0, elem(get_transactions($0)), fold(fold(fold(0, (out(make_tuple‥, elem(get_outputs($0, @params)).address, $0.height) + 1), get_outputs($0, @params)), (out(make_tuple‥, elem(get_inputs($0, @params)).address, $0.height) + 1), get_inputs($0, @params)), ite((!{elem(get_transactions($0))} || ({elem(get_transactions($0)).exec_result.did_fail} && {elem(get_transactions($0)).exec_result})), ~, out(apply‥, $0, elem(get_transactions($0)))), get_transactions($0))) ;; {$0.prev == @state_hash} ;; {elem(get_transactions($0))} ;; !{elem(get_transactions($0)).exec_result.did_fail} | !{elem(get_transactions($0)).exec_result}
each tx_pool_erase(elem(get_transactions($0)).id) ;; {$0.prev == @state_hash} ;; {elem(get_transactions($0))}
each insert(%unordered_set<hash_t>, elem(get_transactions($0)).id) ;; {$0.prev == @state_hash} ;; {elem(get_transactions($0))}
each push_back(%vector<hash_t>, elem(get_transactions($0)).id) ;; {$0.prev == @state_hash} ;; {elem(get_transactions($0))}
each insert(@tx_log, $0.height, %vector<hash_t>) ;; {$0.prev == @state_hash} ;; !{empty(%vector<hash_t>)}
each erase(@tx_queue, fold(begin(@tx_queue), ite({has(%unordered_set<hash_t>, ~.second.id)}, erase(@tx_queue, ~), (~ + 1)))) ;; {$0.prev == @state_hash} ;; !{end(@tx_queue) == fold(begin(@tx_queue), ite({has(%unordered_set<hash_t>, ~.second.id)}, erase(@tx_queue, ~), (~ + 1)))} ;; {has(%unordered_set<hash_t>, fold(begin(@tx_queue), ite({has(%unordered_set<hash_t>, ~.second.id)}, erase(@tx_queue, ~), (~ + 1))).second.id)}
each insert(@balance_table, elem(%balance_cache_t.balance).first, elem(%balance_cache_t.balance).second) ;; {$0.prev == @state_hash}
each find(@total_supply_map, elem(%unordered_map<addr_t,uint128_t>).first, 0, 4294967295) ;; {$0.prev == @state_hash} ;; {elem(%unordered_map<addr_t,uint128_t>).second}
each insert(@total_supply_map, elem(%unordered_map<addr_t,uint128_t>).first, (elem(%unordered_map<addr_t,uint128_t>).second + out(find‥, elem(%unordered_map<addr_t,uint128_t>).first, 4294967295))) ;; {$0.prev == @state_hash} ;; {elem(%unordered_map<addr_t,uint128_t>).second}
each commit($1.storage) ;; {$0.prev == @state_hash} ;; {$1} ;; {$1.storage}
each %farmed_block_info_t.height = $0.height ;; {$0.prev == @state_hash} ;; {$0.height}
each %farmed_block_info_t.reward = u32($0.reward_amount) ;; {$0.prev == @state_hash} ;; {$0.height}
each %farmed_block_info_t.reward_addr = ite({$0.reward_addr}, $0.reward_addr, ctor(addr_t)) ;; {$0.prev == @state_hash} ;; {$0.height}
each insert(@farmer_block_map, pair(get_farmer_key($0), $0.height), %farmed_block_info_t) ;; {$0.prev == @state_hash} ;; {$0.height}
each elem(@farmer_ranking).second = (elem(@farmer_ranking).second + 1) ;; {$0.prev == @state_hash} ;; {$0.height} ;; {elem(@farmer_ranking).first == get_farmer_key($0)}
each push_back(@farmer_ranking, get_farmer_key($0), 1) ;; {$0.prev == @state_hash} ;; {$0.height} ;; !{elem(@farmer_ranking).first == get_farmer_key($0)}
each update_farmer_ranking() ;; {$0.prev == @state_hash} ;; {$0.height}
each write_block($0, true) ;; {$0.prev == @state_hash}
each insert(@height_map, $0.height, $0.hash) ;; {$0.prev == @state_hash}
each clear(@contract_cache) ;; {$0.prev == @state_hash}
each @state_hash = $0.hash ;; {$0.prev == @state_hash}
each commit(@db, ($0.height + 1)) ;; {$0.prev == @state_hash}
each revert($0.height) ;; {$0.prev == @state_hash}
never break(get_inputs($0, @params))
never break(get_outputs($0, @params))
never break(get_transactions($0))
never break(%balance_cache_t.balance)
never break(%unordered_map<addr_t,uint128_t>)
raise !{$0.prev == @state_hash}
raise {$0.prev == @state_hash} ;; {$1} ;; !{$1.storage}
value fold(begin(@tx_queue), ite({has(%unordered_set<hash_t>, ~.second.id)}, erase(@tx_queue, ~), (~ + 1)))
value fold(fold(fold(0, (out(make_tuple#v, elem(get_outputs($0, @params)).address, $0.height) + 1), get_outputs($0, @params)), (out(make_tuple#v, elem(get_inputs($0, @params)).address, $0.height) + 1), get_inputs($0, @params)), ite((!{elem(get_transactions($0))} || ({elem(get_transactions($0)).exec_result.did_fail} && {elem(get_transactions($0)).exec_result})), ~, out(apply#v, $0, elem(get_transactions($0)))), get_transactions($0))
exit {$0.prev == @state_hash}
exit {did @state_hash = $0.hash}
exit {did at(%unordered_map<addr_t,uint128_t>, elem(get_outputs($0, @params)).contract) = (at(%unordered_map<addr_t,uint128_t>, elem(get_outputs($0, @params)).contract) + elem(get_outputs($0, @params)).amount)}
exit {did clamped_sub_assign(at(%unordered_map<addr_t,uint128_t>, elem(get_inputs($0, @params)).contract), elem(get_inputs($0, @params)).amount)}
exit {did clear(@contract_cache)}
exit {did commit(@db, ($0.height + 1))}
exit {did find(%balance_cache_t, elem(get_inputs($0, @params)).address, elem(get_inputs($0, @params)).contract)}
exit {did get(%balance_cache_t, elem(get_outputs($0, @params)).address, elem(get_outputs($0, @params)).contract) = (elem(get_outputs($0, @params)).amount + get(%balance_cache_t, elem(get_outputs($0, @params)).address, elem(get_outputs($0, @params)).contract))}
exit {did get(%balance_cache_t, elem(get_outputs($0, @params)).address, elem(get_outputs($0, @params)).contract)}
exit {did insert(%set<pair<addr_t,addr_t>>, elem(get_inputs($0, @params)).address, elem(get_inputs($0, @params)).contract)}
exit {did insert(%set<pair<addr_t,addr_t>>, elem(get_outputs($0, @params)).address, elem(get_outputs($0, @params)).contract)}
exit {did insert(@balance_table, elem(%balance_cache_t.balance).first, elem(%balance_cache_t.balance).second)}
exit {did insert(@height_map, $0.height, $0.hash)}
exit {did insert(@txio_log, make_tuple(elem(get_inputs($0, @params)).address, $0.height, ite({elem(get_inputs($0, @params)).memo}, …, …)), elem(get_inputs($0, @params)))}
exit {did insert(@txio_log, make_tuple(elem(get_outputs($0, @params)).address, $0.height, ite({elem(get_outputs($0, @params)).memo}, …, …)), elem(get_outputs($0, @params)))}
exit {did write_block($0, true)}
exit {end(@tx_queue) == …}
exit !{$0.height} | {did %farmed_block_info_t.height = $0.height}
exit !{$0.height} | {did %farmed_block_info_t.reward = u32($0.reward_amount)}
exit !{$0.height} | {did %farmed_block_info_t.reward_addr = ite({$0.reward_addr}, $0.reward_addr, ctor(addr_t))}
exit !{$0.height} | {did insert(@farmer_block_map, pair(get_farmer_key($0), $0.height), %farmed_block_info_t)}
exit !{$0.height} | {did update_farmer_ranking()}
exit !{$1} | {$1.storage}
exit !{$1} | {did commit($1.storage)}
exit !{elem(%unordered_map<addr_t,uint128_t>).second} | {did find(@total_supply_map, elem(%unordered_map<addr_t,uint128_t>).first, 0, 4294967295)}
exit !{elem(%unordered_map<addr_t,uint128_t>).second} | {did insert(@total_supply_map, elem(%unordered_map<addr_t,uint128_t>).first, (elem(%unordered_map<addr_t,uint128_t>).second + ‥))}
exit !{elem(get_inputs($0, @params)).memo} | {did insert(@memo_log, make_tuple(ctor(hash_t, (elem(get_inputs($0, @params)).address ++ elem(get_inputs($0, @params)).memo)), $0.height, …), elem(get_inputs($0, @params)).address)}
exit !{elem(get_outputs($0, @params)).memo} | {did insert(@memo_log, make_tuple(ctor(hash_t, (elem(get_outputs($0, @params)).address ++ elem(get_outputs($0, @params)).memo)), $0.height, …), elem(get_outputs($0, @params)).address)}
exit !{elem(get_transactions($0))} | {did insert(%unordered_set<hash_t>, elem(get_transactions($0)).id)}
exit !{elem(get_transactions($0))} | {did push_back(%vector<hash_t>, elem(get_transactions($0)).id)}
exit !{elem(get_transactions($0))} | {did tx_pool_erase(elem(get_transactions($0)).id)}
exit !{has(%balance_cache_t, elem(get_inputs($0, @params)).address)} | {did clamped_sub_assign(find(%balance_cache_t, elem(get_inputs($0, @params)).address, elem(get_inputs($0, @params)).contract), elem(get_inputs($0, @params)).amount)}
exit !{has(%unordered_set<hash_t>, ‥.second.id)} | {did erase(@tx_queue, …)}
exit {did insert(@tx_log, $0.height, %vector<hash_t>)} | {empty(%vector<hash_t>)}
exit !{$0.height} | !{elem(@farmer_ranking).first == get_farmer_key($0)} | {did elem(@farmer_ranking).second = (elem(@farmer_ranking).second + 1)}
exit !{$0.height} | {did push_back(@farmer_ranking, get_farmer_key($0), 1)} | {elem(@farmer_ranking).first == get_farmer_key($0)}
exit !{elem(get_transactions($0))} | {did apply($0, elem(get_transactions($0)), …)} | {elem(get_transactions($0)).exec_result.did_fail}
exit !{elem(get_transactions($0))} | {did apply($0, elem(get_transactions($0)), …)} | {elem(get_transactions($0)).exec_result}
at insert(%set<pair<addr_t,addr_t>>, elem(get_inputs($0, @params)).address, elem(get_inputs($0, @params)).contract)
at insert(%set<pair<addr_t,addr_t>>, elem(get_outputs($0, @params)).address, elem(get_outputs($0, @params)).contract)
at insert(@memo_log, make_tuple(ctor(hash_t, (elem(get_outputs($0, @params)).address ++ elem(get_outputs($0, @params)).memo)), $0.height, …), elem(get_outputs($0, @params)).address) ;; {elem(get_outputs($0, @params)).memo}
at insert(@txio_log, make_tuple(elem(get_outputs($0, @params)).address, $0.height, ite({elem(get_outputs($0, @params)).memo}, …, …)), elem(get_outputs($0, @params)))
at get(%balance_cache_t, elem(get_outputs($0, @params)).address, elem(get_outputs($0, @params)).contract)
at get(%balance_cache_t, elem(get_outputs($0, @params)).address, elem(get_outputs($0, @params)).contract) = (elem(get_outputs($0, @params)).amount + get(%balance_cache_t, elem(get_outputs($0, @params)).address, elem(get_outputs($0, @params)).contract))
at at(%unordered_map<addr_t,uint128_t>, elem(get_outputs($0, @params)).contract) = (at(%unordered_map<addr_t,uint128_t>, elem(get_outputs($0, @params)).contract) + elem(get_outputs($0, @params)).amount)
at find(%balance_cache_t, elem(get_inputs($0, @params)).address, elem(get_inputs($0, @params)).contract)
at clamped_sub_assign(find(%balance_cache_t, elem(get_inputs($0, @params)).address, elem(get_inputs($0, @params)).contract), elem(get_inputs($0, @params)).amount) ;; {has(%balance_cache_t, elem(get_inputs($0, @params)).address)}
at insert(@memo_log, make_tuple(ctor(hash_t, (elem(get_inputs($0, @params)).address ++ elem(get_inputs($0, @params)).memo)), $0.height, …), elem(get_inputs($0, @params)).address) ;; {elem(get_inputs($0, @params)).memo}
at insert(@txio_log, make_tuple(elem(get_inputs($0, @params)).address, $0.height, ite({elem(get_inputs($0, @params)).memo}, …, …)), elem(get_inputs($0, @params)))
at clamped_sub_assign(at(%unordered_map<addr_t,uint128_t>, elem(get_inputs($0, @params)).contract), elem(get_inputs($0, @params)).amount)
at apply($0, elem(get_transactions($0)), …) ;; {elem(get_transactions($0))} ;; !{elem(get_transactions($0)).exec_result.did_fail} | !{elem(get_transactions($0)).exec_result}
at tx_pool_erase(elem(get_transactions($0)).id) ;; {elem(get_transactions($0))}
at insert(%unordered_set<hash_t>, elem(get_transactions($0)).id) ;; {elem(get_transactions($0))}
at push_back(%vector<hash_t>, elem(get_transactions($0)).id) ;; {elem(get_transactions($0))}
at insert(@tx_log, $0.height, %vector<hash_t>) ;; !{empty(%vector<hash_t>)}
at erase(@tx_queue, …) ;; !{end(@tx_queue) == …} ;; {has(%unordered_set<hash_t>, ‥.second.id)}
at insert(@balance_table, elem(%balance_cache_t.balance).first, elem(%balance_cache_t.balance).second)
at find(@total_supply_map, elem(%unordered_map<addr_t,uint128_t>).first, 0, 4294967295) ;; {elem(%unordered_map<addr_t,uint128_t>).second}
at insert(@total_supply_map, elem(%unordered_map<addr_t,uint128_t>).first, (elem(%unordered_map<addr_t,uint128_t>).second + ‥)) ;; {elem(%unordered_map<addr_t,uint128_t>).second}
at commit($1.storage) ;; {$1} ;; {$1.storage}
at %farmed_block_info_t.height = $0.height ;; {$0.height}
at %farmed_block_info_t.reward = u32($0.reward_amount) ;; {$0.height}
at %farmed_block_info_t.reward_addr = ite({$0.reward_addr}, $0.reward_addr, ctor(addr_t)) ;; {$0.height}
at insert(@farmer_block_map, pair(get_farmer_key($0), $0.height), %farmed_block_info_t) ;; {$0.height}
at elem(@farmer_ranking).second = (elem(@farmer_ranking).second + 1) ;; {$0.height} ;; {elem(@farmer_ranking).first == get_farmer_key($0)}
at push_back(@farmer_ranking, get_farmer_key($0), 1) ;; {$0.height} ;; !{elem(@farmer_ranking).first == get_farmer_key($0)}
at update_farmer_ranking() ;; {$0.height}
at write_block($0, true)
at insert(@height_map, $0.height, $0.hash)
at clear(@contract_cache)
at @state_hash = $0.hash
at commit(@db, ($0.height + 1))
at revert($0.height)
at commit(@db, ($0.height + 1)) ;; {did write_block($0, true)} ;; {did insert(@height_map, $0.height, $0.hash)} ;; {did @state_hash = $0.hash} ;; {did clear(@contract_cache)} ;; {did insert(@balance_table, elem(%balance_cache_t.balance).first, elem(%balance_cache_t.balance).second)} | {empty(%balance_cache_t.balance)} ;; !{$1} | {did commit($1.storage)} ;; {$0.prev == @state_hash}
at write_block($0, true) ;; {$0.prev == @state_hash}
at insert(@balance_table, …) ;; {did clamped_sub_assign(find(%balance_cache_t, elem(get_inputs($0, @params)).address, elem(get_inputs($0, @params)).contract), elem(get_inputs($0, @params)).amount)} | !{has(%balance_cache_t, elem(get_inputs($0, @params)).address)} | {empty(get_inputs($0, @params))}
at throw runtime_error ;; {$0.prev == @state_hash}
never break(@farmer_ranking) ;; {$0.prev == @state_hash} ;; {$0.height} ;; {elem(@farmer_ranking).first == get_farmer_key($0)}
fn mmx::Node::apply sig=Transaction
never make_tuple(ite({ctor(addr_t) == elem($1.execute).address}, $1.id, elem($1.execute).address), $0.height, fold(($2 + ite({$1.deploy}, 1, 0)), (~ + 1), $1.execute)) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)}
at insert(@exec_log, make_tuple(ite({ctor(addr_t) == elem($1.execute).address}, $1.id, elem($1.execute).address), $0.height, fold(($2 + ite({$1.deploy}, 1, 0)), (~ + 1), $1.execute)), %exec_entry_t) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)}
at insert(@trade_log, pair($0.height, fold(($2 + ite({$1.deploy}, 1, 0)), (~ + 1), $1.execute)), %trade_log_t) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
at make_tuple(ctor(hash_t, (elem($1.execute).currency ++ "ANY")), $0.height, fold(($2 + ite({$1.deploy}, 1, 0)), (~ + 1), $1.execute)) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
at insert(@trade_index, make_tuple(ctor(hash_t, (elem($1.execute).currency ++ "ANY")), $0.height, fold(($2 + ite({$1.deploy}, 1, 0)), (~ + 1), $1.execute)), true) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
at make_tuple(ctor(hash_t, ("ANY" ++ to_addr(read_storage_field(ite({ctor(addr_t) == elem($1.execute).address}, $1.id, elem($1.execute).address), "bid_currency", 4294967295).first))), $0.height, fold(($2 + ite({$1.deploy}, 1, 0)), (~ + 1), $1.execute)) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
at insert(@trade_index, make_tuple(ctor(hash_t, ("ANY" ++ to_addr(read_storage_field(ite({ctor(addr_t) == elem($1.execute).address}, $1.id, elem($1.execute).address), "bid_currency", 4294967295).first))), $0.height, fold(($2 + ite({$1.deploy}, 1, 0)), (~ + 1), $1.execute)), true) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
at make_tuple(ctor(hash_t, (elem($1.execute).currency ++ to_addr(read_storage_field(ite({ctor(addr_t) == elem($1.execute).address}, $1.id, elem($1.execute).address), "bid_currency", 4294967295).first))), $0.height, fold(($2 + ite({$1.deploy}, 1, 0)), (~ + 1), $1.execute)) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
at insert(@trade_index, make_tuple(ctor(hash_t, (elem($1.execute).currency ++ to_addr(read_storage_field(ite({ctor(addr_t) == elem($1.execute).address}, $1.id, elem($1.execute).address), "bid_currency", 4294967295).first))), $0.height, fold(($2 + ite({$1.deploy}, 1, 0)), (~ + 1), $1.execute)), true) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
each insert(@contract_map, $1.id, $1.deploy) ;; {$1.deploy}
each make_tuple(ctor(hash_t, get_type_name($1.deploy)), $0.height, $2) ;; {$1.deploy}
each insert(@contract_log, make_tuple(ctor(hash_t, get_type_name($1.deploy)), $0.height, $2), $1.id) ;; {$1.deploy}
each make_tuple(ctor(hash_t, (to(get_arg($1.deploy, 2)) ++ "ANY")), $0.height, $2) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy.binary == @params.offer_binary}
each insert(@offer_index, make_tuple(ctor(hash_t, (to(get_arg($1.deploy, 2)) ++ "ANY")), $0.height, $2), $1.id) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy.binary == @params.offer_binary}
each make_tuple(ctor(hash_t, ("ANY" ++ to(get_arg($1.deploy, 1)))), $0.height, $2) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy.binary == @params.offer_binary}
each insert(@offer_index, make_tuple(ctor(hash_t, ("ANY" ++ to(get_arg($1.deploy, 1)))), $0.height, $2), $1.id) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy.binary == @params.offer_binary}
each make_tuple(ctor(hash_t, (to(get_arg($1.deploy, 2)) ++ to(get_arg($1.deploy, 1)))), $0.height, $2) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy.binary == @params.offer_binary}
each insert(@offer_index, make_tuple(ctor(hash_t, (to(get_arg($1.deploy, 2)) ++ to(get_arg($1.deploy, 1)))), $0.height, $2), $1.id) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy.binary == @params.offer_binary}
each make_tuple(ctor(hash_t, (to(get_arg($1.deploy, 0)) ++ "ANY")), $0.height, $2) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy.binary == @params.swap_binary}
each insert(@swap_index, make_tuple(ctor(hash_t, (to(get_arg($1.deploy, 0)) ++ "ANY")), $0.height, $2), $1.id) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy.binary == @params.swap_binary}
each make_tuple(ctor(hash_t, ("ANY" ++ to(get_arg($1.deploy, 1)))), $0.height, $2) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy.binary == @params.swap_binary}
each insert(@swap_index, make_tuple(ctor(hash_t, ("ANY" ++ to(get_arg($1.deploy, 1)))), $0.height, $2), $1.id) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy.binary == @params.swap_binary}
each make_tuple(ctor(hash_t, (to(get_arg($1.deploy, 0)) ++ to(get_arg($1.deploy, 1)))), $0.height, $2) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy.binary == @params.swap_binary}
each insert(@swap_index, make_tuple(ctor(hash_t, (to(get_arg($1.deploy, 0)) ++ to(get_arg($1.deploy, 1)))), $0.height, $2), $1.id) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy.binary == @params.swap_binary}
each make_tuple(to(get_arg($1.deploy, ite((!{$1.deploy.binary == @params.offer_binary} && !{$1.deploy.binary == @params.plot_nft_binary} && !{$1.deploy.binary == @params.time_lock_binary}), ite({$1.deploy.binary == @params.escrow_binary}, 2, -1), 0))), $0.height, $2) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy.binary == @params.escrow_binary} | {$1.deploy.binary == @params.offer_binary} | {$1.deploy.binary == @params.plot_nft_binary} | {$1.deploy.binary == @params.time_lock_binary}
each insert(@owner_map, make_tuple(to(get_arg($1.deploy, ite((!{$1.deploy.binary == @params.offer_binary} && !{$1.deploy.binary == @params.plot_nft_binary} && !{$1.deploy.binary == @params.time_lock_binary}), ite({$1.deploy.binary == @params.escrow_binary}, 2, -1), 0))), $0.height, $2), pair($1.id, $1.deploy.binary)) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy.binary == @params.escrow_binary} | {$1.deploy.binary == @params.offer_binary} | {$1.deploy.binary == @params.plot_nft_binary} | {$1.deploy.binary == @params.time_lock_binary}
each insert(%set<addr_t>, elem($1.deploy.depends).second) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)}
each insert(@contract_depends, $1.id, ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>))) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; !{empty(%set<addr_t>)}
each insert(@contract_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple($1.deploy.binary, $0.height, $2)), $1.id) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)}
each insert(@deploy_map, make_tuple($1.sender, $0.height, $2), pair($1.id, ite((!{$1.deploy} || !{is<contract::Executable>($1.deploy)}), out(make_tuple‥, $0.height, $2), $1.deploy.binary))) ;; {$1.deploy} ;; {$1.sender}
each make_tuple(get_owner($1.deploy), $0.height, $2) ;; {$1.deploy} ;; {get_owner($1.deploy)}
each insert(@owner_map, make_tuple(get_owner($1.deploy), $0.height, $2), pair($1.id, ite((!{$1.deploy} || !{is<contract::Executable>($1.deploy)}), out(make_tuple‥, $0.height, $2), $1.deploy.binary))) ;; {$1.deploy} ;; {get_owner($1.deploy)}
each %exec_entry_t.height = $0.height ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)}
each %exec_entry_t.time_stamp = $0.time_stamp ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)}
each %exec_entry_t.txid = $1.id ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)}
each %exec_entry_t.method = elem($1.execute).method ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)}
each %exec_entry_t.args = elem($1.execute).args ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)}
each %exec_entry_t.user = elem($1.execute).user ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)}
each %exec_entry_t.deposit = pair(elem($1.execute).currency, elem($1.execute).amount) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<operation::Deposit>(elem($1.execute))}
each insert(@exec_log, make_tuple(ite({ctor(addr_t) == elem($1.execute).address}, $1.id, elem($1.execute).address), $0.height, fold(($2 + ite({$1.deploy}, 1, 0)), (~ + 1), $1.execute)), %exec_entry_t) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)}
each find(@swap_liquid_map, pair(elem($1.execute).user, elem($1.execute).address), %array<uint128,2>, 4294967295) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.swap_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {elem($1.execute).user} ;; !{empty(elem($1.execute).args)} ;; !{1 < to(at(elem($1.execute).args, 0))}
each at(%array<uint128,2>, to(at(elem($1.execute).args, 0))) = (at(%array<uint128,2>, to(at(elem($1.execute).args, 0))) + elem($1.execute).amount) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.swap_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {elem($1.execute).user} ;; !{empty(elem($1.execute).args)} ;; !{1 < to(at(elem($1.execute).args, 0))} ;; {"add_liquid" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
each insert(@swap_liquid_map, pair(elem($1.execute).user, elem($1.execute).address), %array<uint128,2>) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.swap_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {elem($1.execute).user} ;; !{empty(elem($1.execute).args)} ;; !{1 < to(at(elem($1.execute).args, 0))} ;; {"add_liquid" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
each at(%array<uint128,2>, to(at(elem($1.execute).args, 0))) = (-to(at(elem($1.execute).args, 1)) + at(%array<uint128,2>, to(at(elem($1.execute).args, 0)))) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.swap_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {elem($1.execute).user} ;; !{empty(elem($1.execute).args)} ;; !{1 < to(at(elem($1.execute).args, 0))} ;; {"rem_liquid" == elem($1.execute).method} ;; {1 < size(elem($1.execute).args)}
each insert(@swap_liquid_map, pair(elem($1.execute).user, elem($1.execute).address), %array<uint128,2>) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.swap_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {elem($1.execute).user} ;; !{empty(elem($1.execute).args)} ;; !{1 < to(at(elem($1.execute).args, 0))} ;; {"rem_liquid" == elem($1.execute).method} ;; {1 < size(elem($1.execute).args)}
each %array<uint128,2> = ctor(array<uint128,2>) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.swap_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {elem($1.execute).user} ;; !{empty(elem($1.execute).args)} ;; !{1 < to(at(elem($1.execute).args, 0))} ;; {"rem_all_liquid" == elem($1.execute).method}
each insert(@swap_liquid_map, pair(elem($1.execute).user, elem($1.execute).address), %array<uint128,2>) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.swap_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {elem($1.execute).user} ;; !{empty(elem($1.execute).args)} ;; !{1 < to(at(elem($1.execute).args, 0))} ;; {"rem_all_liquid" == elem($1.execute).method}
each %trade_log_t.time_stamp = $0.time_stamp ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
each %trade_log_t.txid = $1.id ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
each %trade_log_t.address = ite({ctor(addr_t) == elem($1.execute).address}, $1.id, elem($1.execute).address) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
each %trade_log_t.ask_amount = elem($1.execute).amount ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
each to(get_arg(elem($1.execute), 1), %trade_log_t.inv_price) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
each insert(@trade_log, pair($0.height, fold(($2 + ite({$1.deploy}, 1, 0)), (~ + 1), $1.execute)), %trade_log_t) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
each make_tuple(ctor(hash_t, (elem($1.execute).currency ++ "ANY")), $0.height, fold(($2 + ite({$1.deploy}, 1, 0)), (~ + 1), $1.execute)) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
each insert(@trade_index, make_tuple(ctor(hash_t, (elem($1.execute).currency ++ "ANY")), $0.height, fold(($2 + ite({$1.deploy}, 1, 0)), (~ + 1), $1.execute)), true) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
each make_tuple(ctor(hash_t, ("ANY" ++ to_addr(read_storage_field(ite({ctor(addr_t) == elem($1.execute).address}, $1.id, elem($1.execute).address), "bid_currency", 4294967295).first))), $0.height, fold(($2 + ite({$1.deploy}, 1, 0)), (~ + 1), $1.execute)) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
each insert(@trade_index, make_tuple(ctor(hash_t, ("ANY" ++ to_addr(read_storage_field(ite({ctor(addr_t) == elem($1.execute).address}, $1.id, elem($1.execute).address), "bid_currency", 4294967295).first))), $0.height, fold(($2 + ite({$1.deploy}, 1, 0)), (~ + 1), $1.execute)), true) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
each make_tuple(ctor(hash_t, (elem($1.execute).currency ++ to_addr(read_storage_field(ite({ctor(addr_t) == elem($1.execute).address}, $1.id, elem($1.execute).address), "bid_currency", 4294967295).first))), $0.height, fold(($2 + ite({$1.deploy}, 1, 0)), (~ + 1), $1.execute)) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
each insert(@trade_index, make_tuple(ctor(hash_t, (elem($1.execute).currency ++ to_addr(read_storage_field(ite({ctor(addr_t) == elem($1.execute).address}, $1.id, elem($1.execute).address), "bid_currency", 4294967295).first))), $0.height, fold(($2 + ite({$1.deploy}, 1, 0)), (~ + 1), $1.execute)), true) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))}
never break($1.deploy.depends)
never break($1.execute)
never throw …
value fold(($2 + ite({$1.deploy}, 1, 0)), (~ + 1), $1.execute)
exit {out $2 = ($2 + ite({$1.deploy}, 1, 0) + size($1.execute))}
exit !{$1.deploy} | {did insert(@contract_log, make_tuple(ctor(hash_t, get_type_name($1.deploy)), $0.height, $2), $1.id)}
exit !{$1.deploy} | {did insert(@contract_map, $1.id, $1.deploy)}
exit !{$1.deploy} | !{$1.sender} | {did insert(@deploy_map, make_tuple($1.sender, $0.height, $2), pair($1.id, ite((!{$1.deploy} || !{is<contract::Executable>($1.deploy)}), …, $1.deploy.binary)))}
exit !{$1.deploy} | !{get_owner($1.deploy)} | {did insert(@owner_map, make_tuple(get_owner($1.deploy), $0.height, $2), pair($1.id, ite((!{$1.deploy} || !{is<contract::Executable>($1.deploy)}), …, $1.deploy.binary)))}
exit !{$1.deploy} | !{is<contract::Executable>($1.deploy)} | {did insert(%set<addr_t>, elem($1.deploy.depends).second)}
exit !{$1.deploy} | !{is<contract::Executable>($1.deploy)} | {did insert(@contract_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple($1.deploy.binary, $0.height, $2)), $1.id)}
exit !{elem($1.execute)} | !{is<operation::Execute>(elem($1.execute))} | {did %exec_entry_t.args = elem($1.execute).args}
exit !{elem($1.execute)} | !{is<operation::Execute>(elem($1.execute))} | {did %exec_entry_t.height = $0.height}
exit !{elem($1.execute)} | !{is<operation::Execute>(elem($1.execute))} | {did %exec_entry_t.method = elem($1.execute).method}
exit !{elem($1.execute)} | !{is<operation::Execute>(elem($1.execute))} | {did %exec_entry_t.time_stamp = $0.time_stamp}
exit !{elem($1.execute)} | !{is<operation::Execute>(elem($1.execute))} | {did %exec_entry_t.txid = $1.id}
exit !{elem($1.execute)} | !{is<operation::Execute>(elem($1.execute))} | {did %exec_entry_t.user = elem($1.execute).user}
exit !{elem($1.execute)} | !{is<operation::Execute>(elem($1.execute))} | {did insert(@exec_log, make_tuple(ite({ctor(addr_t) == elem($1.execute).address}, $1.id, elem($1.execute).address), $0.height, …), %exec_entry_t)}
exit !{$1.deploy.binary == @params.escrow_binary} | !{$1.deploy} | !{is<contract::Executable>($1.deploy)} | {did insert(@owner_map, make_tuple(to(get_arg($1.deploy, ite((!{$1.deploy.binary == @params.offer_binary} && !{$1.deploy.binary == @params.plot_nft_binary} && !{$1.deploy.binary == @params.time_lock_binary}), ite({$1.deploy.binary == @params.escrow_binary}, 2, -1), 0))), $0.height, $2), pair($1.id, $1.deploy.binary))}
exit !{$1.deploy.binary == @params.offer_binary} | !{$1.deploy} | !{is<contract::Executable>($1.deploy)} | {did insert(@offer_index, make_tuple(ctor(hash_t, ("ANY" ++ to(get_arg($1.deploy, 1)))), $0.height, $2), $1.id)}
exit !{$1.deploy.binary == @params.offer_binary} | !{$1.deploy} | !{is<contract::Executable>($1.deploy)} | {did insert(@offer_index, make_tuple(ctor(hash_t, (to(get_arg($1.deploy, 2)) ++ "ANY")), $0.height, $2), $1.id)}
exit !{$1.deploy.binary == @params.offer_binary} | !{$1.deploy} | !{is<contract::Executable>($1.deploy)} | {did insert(@offer_index, make_tuple(ctor(hash_t, (to(get_arg($1.deploy, 2)) ++ to(get_arg($1.deploy, 1)))), $0.height, $2), $1.id)}
exit !{$1.deploy.binary == @params.offer_binary} | !{$1.deploy} | !{is<contract::Executable>($1.deploy)} | {did insert(@owner_map, make_tuple(to(get_arg($1.deploy, ite((!{$1.deploy.binary == @params.offer_binary} && !{$1.deploy.binary == @params.plot_nft_binary} && !{$1.deploy.binary == @params.time_lock_binary}), ite({$1.deploy.binary == @params.escrow_binary}, 2, -1), 0))), $0.height, $2), pair($1.id, $1.deploy.binary))}
exit !{$1.deploy.binary == @params.plot_nft_binary} | !{$1.deploy} | !{is<contract::Executable>($1.deploy)} | {did insert(@owner_map, make_tuple(to(get_arg($1.deploy, ite((!{$1.deploy.binary == @params.offer_binary} && !{$1.deploy.binary == @params.plot_nft_binary} && !{$1.deploy.binary == @params.time_lock_binary}), ite({$1.deploy.binary == @params.escrow_binary}, 2, -1), 0))), $0.height, $2), pair($1.id, $1.deploy.binary))}
exit !{$1.deploy.binary == @params.swap_binary} | !{$1.deploy} | !{is<contract::Executable>($1.deploy)} | {did insert(@swap_index, make_tuple(ctor(hash_t, ("ANY" ++ to(get_arg($1.deploy, 1)))), $0.height, $2), $1.id)}
exit !{$1.deploy.binary == @params.swap_binary} | !{$1.deploy} | !{is<contract::Executable>($1.deploy)} | {did insert(@swap_index, make_tuple(ctor(hash_t, (to(get_arg($1.deploy, 0)) ++ "ANY")), $0.height, $2), $1.id)}
exit !{$1.deploy.binary == @params.swap_binary} | !{$1.deploy} | !{is<contract::Executable>($1.deploy)} | {did insert(@swap_index, make_tuple(ctor(hash_t, (to(get_arg($1.deploy, 0)) ++ to(get_arg($1.deploy, 1)))), $0.height, $2), $1.id)}
exit !{$1.deploy.binary == @params.time_lock_binary} | !{$1.deploy} | !{is<contract::Executable>($1.deploy)} | {did insert(@owner_map, make_tuple(to(get_arg($1.deploy, ite((!{$1.deploy.binary == @params.offer_binary} && !{$1.deploy.binary == @params.plot_nft_binary} && !{$1.deploy.binary == @params.time_lock_binary}), ite({$1.deploy.binary == @params.escrow_binary}, 2, -1), 0))), $0.height, $2), pair($1.id, $1.deploy.binary))}
exit !{$1.deploy} | !{is<contract::Executable>($1.deploy)} | {did insert(@contract_depends, $1.id, ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>)))} | {empty(%set<addr_t>)}
exit !{elem($1.execute)} | !{is<operation::Deposit>(elem($1.execute))} | !{is<operation::Execute>(elem($1.execute))} | {did %exec_entry_t.deposit = pair(elem($1.execute).currency, elem($1.execute).amount)}
at insert(@contract_map, $1.id, $1.deploy) ;; {$1.deploy}
at insert(@contract_log, make_tuple(ctor(hash_t, get_type_name($1.deploy)), $0.height, $2), $1.id) ;; {$1.deploy}
at insert(@offer_index, make_tuple(ctor(hash_t, (to(get_arg($1.deploy, 2)) ++ "ANY")), $0.height, $2), $1.id) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy} ;; {$1.deploy.binary == @params.offer_binary}
at insert(@offer_index, make_tuple(ctor(hash_t, ("ANY" ++ to(get_arg($1.deploy, 1)))), $0.height, $2), $1.id) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy} ;; {$1.deploy.binary == @params.offer_binary}
at insert(@offer_index, make_tuple(ctor(hash_t, (to(get_arg($1.deploy, 2)) ++ to(get_arg($1.deploy, 1)))), $0.height, $2), $1.id) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy} ;; {$1.deploy.binary == @params.offer_binary}
at insert(@swap_index, make_tuple(ctor(hash_t, (to(get_arg($1.deploy, 0)) ++ "ANY")), $0.height, $2), $1.id) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy} ;; {$1.deploy.binary == @params.swap_binary}
at insert(@swap_index, make_tuple(ctor(hash_t, ("ANY" ++ to(get_arg($1.deploy, 1)))), $0.height, $2), $1.id) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy} ;; {$1.deploy.binary == @params.swap_binary}
at insert(@swap_index, make_tuple(ctor(hash_t, (to(get_arg($1.deploy, 0)) ++ to(get_arg($1.deploy, 1)))), $0.height, $2), $1.id) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy} ;; {$1.deploy.binary == @params.swap_binary}
at insert(@owner_map, make_tuple(to(get_arg($1.deploy, ite((!{$1.deploy.binary == @params.offer_binary} && !{$1.deploy.binary == @params.plot_nft_binary} && !{$1.deploy.binary == @params.time_lock_binary}), ite({$1.deploy.binary == @params.escrow_binary}, 2, -1), 0))), $0.height, $2), pair($1.id, $1.deploy.binary)) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy} ;; {$1.deploy.binary == @params.escrow_binary} | {$1.deploy.binary == @params.offer_binary} | {$1.deploy.binary == @params.plot_nft_binary} | {$1.deploy.binary == @params.time_lock_binary}
at insert(%set<addr_t>, elem($1.deploy.depends).second) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy}
at insert(@contract_depends, $1.id, ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>))) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy} ;; !{empty(%set<addr_t>)}
at insert(@contract_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple($1.deploy.binary, $0.height, $2)), $1.id) ;; {$1.deploy} ;; {is<contract::Executable>($1.deploy)} ;; {$1.deploy}
at insert(@deploy_map, make_tuple($1.sender, $0.height, $2), pair($1.id, ite((!{$1.deploy} || !{is<contract::Executable>($1.deploy)}), …, $1.deploy.binary))) ;; {$1.deploy} ;; {$1.sender}
at insert(@owner_map, make_tuple(get_owner($1.deploy), $0.height, $2), pair($1.id, ite((!{$1.deploy} || !{is<contract::Executable>($1.deploy)}), …, $1.deploy.binary))) ;; {$1.deploy} ;; {get_owner($1.deploy)}
at %exec_entry_t.height = $0.height ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)}
at %exec_entry_t.time_stamp = $0.time_stamp ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)}
at %exec_entry_t.txid = $1.id ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)}
at %exec_entry_t.method = elem($1.execute).method ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)}
at %exec_entry_t.args = elem($1.execute).args ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)}
at %exec_entry_t.user = elem($1.execute).user ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)}
at %exec_entry_t.deposit = pair(elem($1.execute).currency, elem($1.execute).amount) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<operation::Deposit>(elem($1.execute))} ;; {elem($1.execute)}
at insert(@exec_log, make_tuple(ite({ctor(addr_t) == elem($1.execute).address}, $1.id, elem($1.execute).address), $0.height, …), %exec_entry_t) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)}
at find(@swap_liquid_map, pair(elem($1.execute).user, elem($1.execute).address), %array<uint128,2>, 4294967295) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.swap_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {elem($1.execute).user} ;; !{empty(elem($1.execute).args)} ;; !{1 < to(at(elem($1.execute).args, 0))}
at at(%array<uint128,2>, to(at(elem($1.execute).args, 0))) = (at(%array<uint128,2>, to(at(elem($1.execute).args, 0))) + elem($1.execute).amount) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.swap_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {elem($1.execute).user} ;; !{empty(elem($1.execute).args)} ;; !{1 < to(at(elem($1.execute).args, 0))} ;; {"add_liquid" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))} ;; {elem($1.execute)}
at insert(@swap_liquid_map, pair(elem($1.execute).user, elem($1.execute).address), %array<uint128,2>) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.swap_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {elem($1.execute).user} ;; !{empty(elem($1.execute).args)} ;; !{1 < to(at(elem($1.execute).args, 0))} ;; {elem($1.execute)}
at at(%array<uint128,2>, to(at(elem($1.execute).args, 0))) = (-to(at(elem($1.execute).args, 1)) + at(%array<uint128,2>, to(at(elem($1.execute).args, 0)))) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.swap_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {elem($1.execute).user} ;; !{empty(elem($1.execute).args)} ;; !{1 < to(at(elem($1.execute).args, 0))} ;; {"rem_liquid" == elem($1.execute).method} ;; {1 < size(elem($1.execute).args)}
at %array<uint128,2> = ctor(array<uint128,2>) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.swap_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {elem($1.execute).user} ;; !{empty(elem($1.execute).args)} ;; !{1 < to(at(elem($1.execute).args, 0))} ;; {"rem_all_liquid" == elem($1.execute).method}
at %trade_log_t.time_stamp = $0.time_stamp ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))} ;; {elem($1.execute)}
at %trade_log_t.txid = $1.id ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))} ;; {elem($1.execute)}
at %trade_log_t.address = ite({ctor(addr_t) == elem($1.execute).address}, $1.id, elem($1.execute).address) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))} ;; {elem($1.execute)}
at %trade_log_t.ask_amount = elem($1.execute).amount ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))} ;; {elem($1.execute)}
at to(get_arg(elem($1.execute), 1), %trade_log_t.inv_price) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))} ;; {elem($1.execute)}
at insert(@trade_log, pair($0.height, …), %trade_log_t) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))} ;; {elem($1.execute)}
at insert(@trade_index, make_tuple(ctor(hash_t, (elem($1.execute).currency ++ "ANY")), $0.height, …), true) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))} ;; {elem($1.execute)}
at insert(@trade_index, make_tuple(ctor(hash_t, ("ANY" ++ to_addr(read_storage_field(ite({ctor(addr_t) == elem($1.execute).address}, $1.id, elem($1.execute).address), "bid_currency", 4294967295).first))), $0.height, …), true) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))} ;; {elem($1.execute)}
at insert(@trade_index, make_tuple(ctor(hash_t, (elem($1.execute).currency ++ to_addr(read_storage_field(ite({ctor(addr_t) == elem($1.execute).address}, $1.id, elem($1.execute).address), "bid_currency", 4294967295).first))), $0.height, …), true) ;; {is<operation::Execute>(elem($1.execute))} ;; {elem($1.execute)} ;; {is<contract::Executable>(ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy))} ;; !{ctor(addr_t) == elem($1.execute).address} | {$1.deploy} ;; !{$1.id == elem($1.execute).address} | {$1.deploy} ;; {$1.id == elem($1.execute).address} | {ctor(addr_t) == elem($1.execute).address} | {get_contract(elem($1.execute).address)} ;; {$1.deploy} | {get_contract(elem($1.execute).address)} ;; {@params.offer_binary == ite((!{$1.id == elem($1.execute).address} && !{ctor(addr_t) == elem($1.execute).address}), get_contract(elem($1.execute).address), $1.deploy).binary} ;; {"accept" == elem($1.execute).method} | {"trade" == elem($1.execute).method} ;; {is<operation::Deposit>(elem($1.execute))} ;; {elem($1.execute)}
fn mmx::Node::revert
never break(loop)
never get_farmer_key(fold(get_peak(), find_prev(~, 1, false))) ;; {@root} ;; {@root.height < $0} ;; {fold(get_peak(), find_prev(~, 1, false))} ;; !{fold(get_peak(), find_prev(~, 1, false)).height < $0} ;; {fold(get_peak(), find_prev(~, 1, false)).height}
at elem(@farmer_ranking).second = (elem(@farmer_ranking).second + -1) ;; {@root} ;; {@root.height < $0} ;; {fold(get_peak(), find_prev(~, 1, false))} ;; !{fold(get_peak(), find_prev(~, 1, false)).height < $0} ;; {fold(get_peak(), find_prev(~, 1, false)).height} ;; {elem(@farmer_ranking).first == get_farmer_key(fold(get_peak(), find_prev(~, 1, false)))} ;; {elem(@farmer_ranking).second}
never clone(elem(fold(get_peak(), find_prev(~, 1, false)).tx_list)) ;; {@root} ;; {@root.height < $0} ;; {fold(get_peak(), find_prev(~, 1, false))} ;; !{fold(get_peak(), find_prev(~, 1, false)).height < $0} ;; {@is_synced} ;; {is<Block>(fold(get_peak(), find_prev(~, 1, false)))}
at reset(clone(elem(fold(get_peak(), find_prev(~, 1, false)).tx_list)), @params) ;; {@root} ;; {@root.height < $0} ;; {fold(get_peak(), find_prev(~, 1, false))} ;; !{fold(get_peak(), find_prev(~, 1, false)).height < $0} ;; {@is_synced} ;; {is<Block>(fold(get_peak(), find_prev(~, 1, false)))}
at %Node::tx_pool_t.tx = clone(elem(fold(get_peak(), find_prev(~, 1, false)).tx_list)) ;; {@root} ;; {@root.height < $0} ;; {fold(get_peak(), find_prev(~, 1, false))} ;; !{fold(get_peak(), find_prev(~, 1, false)).height < $0} ;; {@is_synced} ;; {is<Block>(fold(get_peak(), find_prev(~, 1, false)))}
at %Node::tx_pool_t.fee = elem(fold(get_peak(), find_prev(~, 1, false)).tx_list).exec_result.total_fee ;; {@root} ;; {@root.height < $0} ;; {fold(get_peak(), find_prev(~, 1, false))} ;; !{fold(get_peak(), find_prev(~, 1, false)).height < $0} ;; {@is_synced} ;; {is<Block>(fold(get_peak(), find_prev(~, 1, false)))}
at %Node::tx_pool_t.cost = elem(fold(get_peak(), find_prev(~, 1, false)).tx_list).exec_result.total_cost ;; {@root} ;; {@root.height < $0} ;; {fold(get_peak(), find_prev(~, 1, false))} ;; !{fold(get_peak(), find_prev(~, 1, false)).height < $0} ;; {@is_synced} ;; {is<Block>(fold(get_peak(), find_prev(~, 1, false)))}
at %Node::tx_pool_t.is_valid = true ;; {@root} ;; {@root.height < $0} ;; {fold(get_peak(), find_prev(~, 1, false))} ;; !{fold(get_peak(), find_prev(~, 1, false)).height < $0} ;; {@is_synced} ;; {is<Block>(fold(get_peak(), find_prev(~, 1, false)))}
at tx_pool_update(%Node::tx_pool_t, true) ;; {@root} ;; {@root.height < $0} ;; {fold(get_peak(), find_prev(~, 1, false))} ;; !{fold(get_peak(), find_prev(~, 1, false)).height < $0} ;; {@is_synced} ;; {is<Block>(fold(get_peak(), find_prev(~, 1, false)))}
never find_prev(fold(get_peak(), find_prev(~, 1, false)), 1, false) ;; {@root} ;; {@root.height < $0} ;; {fold(get_peak(), find_prev(~, 1, false))} ;; !{fold(get_peak(), find_prev(~, 1, false)).height < $0}
each elem(@farmer_ranking).second = (elem(@farmer_ranking).second + -1) ;; {@root} ;; {@root.height < $0} ;; {fold(get_peak(), find_prev(~, 1, false))} ;; !{fold(get_peak(), find_prev(~, 1, false)).height < $0} ;; {fold(get_peak(), find_prev(~, 1, false)).height} ;; {elem(@farmer_ranking).first == get_farmer_key(fold(get_peak(), find_prev(~, 1, false)))} ;; {elem(@farmer_ranking).second}
each reset(clone(elem(fold(get_peak(), find_prev(~, 1, false)).tx_list)), @params) ;; {@root} ;; {@root.height < $0} ;; {fold(get_peak(), find_prev(~, 1, false))} ;; !{fold(get_peak(), find_prev(~, 1, false)).height < $0} ;; {@is_synced} ;; {is<Block>(fold(get_peak(), find_prev(~, 1, false)))}
each %Node::tx_pool_t.tx = clone(elem(fold(get_peak(), find_prev(~, 1, false)).tx_list)) ;; {@root} ;; {@root.height < $0} ;; {fold(get_peak(), find_prev(~, 1, false))} ;; !{fold(get_peak(), find_prev(~, 1, false)).height < $0} ;; {@is_synced} ;; {is<Block>(fold(get_peak(), find_prev(~, 1, false)))}
each %Node::tx_pool_t.fee = elem(fold(get_peak(), find_prev(~, 1, false)).tx_list).exec_result.total_fee ;; {@root} ;; {@root.height < $0} ;; {fold(get_peak(), find_prev(~, 1, false))} ;; !{fold(get_peak(), find_prev(~, 1, false)).height < $0} ;; {@is_synced} ;; {is<Block>(fold(get_peak(), find_prev(~, 1, false)))}
each %Node::tx_pool_t.cost = elem(fold(get_peak(), find_prev(~, 1, false)).tx_list).exec_result.total_cost ;; {@root} ;; {@root.height < $0} ;; {fold(get_peak(), find_prev(~, 1, false))} ;; !{fold(get_peak(), find_prev(~, 1, false)).height < $0} ;; {@is_synced} ;; {is<Block>(fold(get_peak(), find_prev(~, 1, false)))}
each %Node::tx_pool_t.is_valid = true ;; {@root} ;; {@root.height < $0} ;; {fold(get_peak(), find_prev(~, 1, false))} ;; !{fold(get_peak(), find_prev(~, 1, false)).height < $0} ;; {@is_synced} ;; {is<Block>(fold(get_peak(), find_prev(~, 1, false)))}
each tx_pool_update(%Node::tx_pool_t, true) ;; {@root} ;; {@root.height < $0} ;; {fold(get_peak(), find_prev(~, 1, false))} ;; !{fold(get_peak(), find_prev(~, 1, false)).height < $0} ;; {@is_synced} ;; {is<Block>(fold(get_peak(), find_prev(~, 1, false)))}
each revert(@db, $0)
each find_last(@height_map, 0, @state_hash)
each @state_hash = ctor(hash_t) ;; !{find_last(@height_map, 0, @state_hash)}
each clear(@contract_cache)
each scan(@farmer_block_map, lambda) ;; !{@root.height < $0} | !{@root} | {empty(@farmer_ranking)}
each at(%map<pubkey_t,unsignedint>, $cb0.first) = (at(%map<pubkey_t,unsignedint>, $cb0.first) + 1) ;; !{@root.height < $0} | !{@root} | {empty(@farmer_ranking)}
each clear(@farmer_ranking) ;; !{@root.height < $0} | !{@root} | {empty(@farmer_ranking)}
each push_back(@farmer_ranking, elem(%map<pubkey_t,unsignedint>)) ;; !{@root.height < $0} | !{@root} | {empty(@farmer_ranking)}
each update_farmer_ranking()
never break(~0.tx_list)
never break(fold(get_peak(), find_prev(~, 1, false)).tx_list)
never break(%map<pubkey_t,unsignedint>)
never throw …
value fold(get_peak(), find_prev(~, 1, false))
exit {did clear(@contract_cache)}
exit {did find_last(@height_map, 0, @state_hash)}
exit {did revert(@db, $0)}
exit {did update_farmer_ranking()}
exit !{empty(@farmer_ranking)} | {did clear(@farmer_ranking)}
exit !{empty(@farmer_ranking)} | {did push_back(@farmer_ranking, elem(%map<pubkey_t,unsignedint>))}
exit !{empty(@farmer_ranking)} | {did scan(@farmer_block_map, lambda)}
exit {@root.height < $0} | {did clear(@farmer_ranking)}
exit {@root.height < $0} | {did push_back(@farmer_ranking, elem(%map<pubkey_t,unsignedint>))}
exit {@root.height < $0} | {did scan(@farmer_block_map, lambda)}
exit {@root} | {did clear(@farmer_ranking)}
exit {@root} | {did push_back(@farmer_ranking, elem(%map<pubkey_t,unsignedint>))}
exit {@root} | {did scan(@farmer_block_map, lambda)}
exit {did @state_hash = ctor(hash_t)} | {find_last(@height_map, 0, @state_hash)}
exit !{elem(@farmer_ranking).first == get_farmer_key(…)} | !{elem(@farmer_ranking).second} | !{‥.height} | {did elem(@farmer_ranking).second = (elem(@farmer_ranking).second + -1)}
at elem(@farmer_ranking).second = (elem(@farmer_ranking).second + -1) ;; {@root} ;; {@root.height < $0} ;; {…} ;; !{‥.height < $0} ;; {‥.height} ;; {elem(@farmer_ranking).first == get_farmer_key(…)} ;; {elem(@farmer_ranking).second}
at reset(clone(elem(‥.tx_list)), @params) ;; {@root} ;; {@root.height < $0} ;; {…} ;; !{‥.height < $0} ;; {@is_synced} ;; {is<Block>(…)} ;; {…}
at %Node::tx_pool_t.tx = clone(elem(‥.tx_list)) ;; {@root} ;; {@root.height < $0} ;; {…} ;; !{‥.height < $0} ;; {@is_synced} ;; {is<Block>(…)} ;; {…}
at %Node::tx_pool_t.fee = elem(‥.tx_list).exec_result.total_fee ;; {@root} ;; {@root.height < $0} ;; {…} ;; !{‥.height < $0} ;; {@is_synced} ;; {is<Block>(…)} ;; {…}
at %Node::tx_pool_t.cost = elem(‥.tx_list).exec_result.total_cost ;; {@root} ;; {@root.height < $0} ;; {…} ;; !{‥.height < $0} ;; {@is_synced} ;; {is<Block>(…)} ;; {…}
at %Node::tx_pool_t.is_valid = true ;; {@root} ;; {@root.height < $0} ;; {…} ;; !{‥.height < $0} ;; {@is_synced} ;; {is<Block>(…)} ;; {…}
at tx_pool_update(%Node::tx_pool_t, true) ;; {@root} ;; {@root.height < $0} ;; {…} ;; !{‥.height < $0} ;; {@is_synced} ;; {is<Block>(…)} ;; {…}
at revert(@db, $0)
at find_last(@height_map, 0, @state_hash)
at @state_hash = ctor(hash_t) ;; !{find_last(@height_map, 0, @state_hash)}
at clear(@contract_cache)
at scan(@farmer_block_map, lambda) ;; !{@root.height < $0} | !{@root} | {empty(@farmer_ranking)}
at at(%map<pubkey_t,unsignedint>, $cb0.first) = (at(%map<pubkey_t,unsignedint>, $cb0.first) + 1) ;; !{@root.height < $0} | !{@root} | {empty(@farmer_ranking)}
at clear(@farmer_ranking) ;; !{@root.height < $0} | !{@root} | {empty(@farmer_ranking)}
at push_back(@farmer_ranking, elem(%map<pubkey_t,unsignedint>)) ;; !{@root.height < $0} | !{@root} | {empty(@farmer_ranking)}
at update_farmer_ranking()
at find_last(@height_map, 0, @state_hash) ;; {did revert(@db, $0)}
at @state_hash = ctor(hash_t) ;; {did revert(@db, $0)}
never break(@farmer_ranking) ;; {@root} ;; {@root.height < $0} ;; {fold(get_peak(), find_prev(~, 1, false))} ;; !{fold(get_peak(), find_prev(~, 1, false)).height < $0} ;; {fold(get_peak(), find_prev(~, 1, false)).height} ;; {elem(@farmer_ranking).first == get_farmer_key(fold(get_peak(), find_prev(~, 1, false)))}
fn mmx::Node::reset
never get_block_at(fold(out(find_last‥, @state_hash), (~ + -1))) ;; {find_last(@height_map, 0, @state_hash)}
never is_valid(get_block_at(fold(out(find_last‥, @state_hash), (~ + -1))), @params) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_block_at(fold(out(find_last‥, @state_hash), (~ + -1)))}
at revert(fold(out(find_last‥, @state_hash), (~ + -1))) ;; {find_last(@height_map, 0, @state_hash)} ;; {fold(out(find_last‥, @state_hash), (~ + -1))}
never get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1)))) ;; {find_last(@height_map, 0, @state_hash)}
at @root = get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1)))) ;; {find_last(@height_map, 0, @state_hash)}
at find_range(@height_index, get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1)))).height, (fold(out(find_last‥, @state_hash), (~ + -1)) + 1), %vector<hash_t>) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))}
never get_block(elem(%vector<hash_t>)) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))}
at %shared_ptr<Node::fork_t>.block = get_block(elem(%vector<hash_t>)) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))} ;; {get_block(elem(%vector<hash_t>))}
at %shared_ptr<Node::fork_t>.is_vdf_verified = true ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))} ;; {get_block(elem(%vector<hash_t>))}
at add_fork(%shared_ptr<Node::fork_t>) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))} ;; {get_block(elem(%vector<hash_t>))}
at at(@history, fold(get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1)))), find_prev(~, 1, false)).hash) = fold(get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1)))), find_prev(~, 1, false)) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))} ;; {fold(get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1)))), find_prev(~, 1, false))} ;; {size(@history) < @max_history}
at insert(@history_log, fold(get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1)))), find_prev(~, 1, false)).height, fold(get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1)))), find_prev(~, 1, false)).hash) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))} ;; {fold(get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1)))), find_prev(~, 1, false))} ;; {size(@history) < @max_history}
never find_prev(fold(get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1)))), find_prev(~, 1, false)), 1, false) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))} ;; {fold(get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1)))), find_prev(~, 1, false))} ;; {size(@history) < @max_history}
at @mmx_address_count = 0 ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))}
at scan(@balance_table, lambda) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))}
at @mmx_address_count = (@mmx_address_count + 1) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))} ;; {999999 < $cb1} ;; {$cb0.second == ctor(addr_t)}
each @root = 0
each clear(@fork_tree)
each clear(@fork_index)
each clear(@history)
each clear(@history_log)
each clear(@contract_cache)
each find_last(@height_map, 0, @state_hash)
each open(@blocks, "rb+") ;; {find_last(@height_map, 0, @state_hash)}
each revert(fold(out(find_last‥, @state_hash), (~ + -1))) ;; {find_last(@height_map, 0, @state_hash)} ;; {fold(out(find_last‥, @state_hash), (~ + -1))}
each @root = get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1)))) ;; {find_last(@height_map, 0, @state_hash)}
each find_range(@height_index, get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1)))).height, (fold(out(find_last‥, @state_hash), (~ + -1)) + 1), %vector<hash_t>) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))}
each %shared_ptr<Node::fork_t>.block = get_block(elem(%vector<hash_t>)) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))} ;; {get_block(elem(%vector<hash_t>))}
each %shared_ptr<Node::fork_t>.is_vdf_verified = true ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))} ;; {get_block(elem(%vector<hash_t>))}
each add_fork(%shared_ptr<Node::fork_t>) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))} ;; {get_block(elem(%vector<hash_t>))}
each at(@history, fold(get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1)))), find_prev(~, 1, false)).hash) = fold(get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1)))), find_prev(~, 1, false)) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))} ;; {fold(get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1)))), find_prev(~, 1, false))} ;; {size(@history) < @max_history}
each insert(@history_log, fold(get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1)))), find_prev(~, 1, false)).height, fold(get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1)))), find_prev(~, 1, false)).hash) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))} ;; {fold(get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1)))), find_prev(~, 1, false))} ;; {size(@history) < @max_history}
each @mmx_address_count = 0 ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))}
each scan(@balance_table, lambda) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))}
each @mmx_address_count = (@mmx_address_count + 1) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, fold(out(find_last‥, @state_hash), (~ + -1))) + fold(out(find_last‥, @state_hash), (~ + -1))))} ;; {999999 < $cb1} ;; {$cb0.second == ctor(addr_t)}
each open(@blocks, "wb") ;; !{find_last(@height_map, 0, @state_hash)}
each open(@blocks, "rb+") ;; !{find_last(@height_map, 0, @state_hash)}
each revert(@db_blocks, 0) ;; !{find_last(@height_map, 0, @state_hash)}
each init_chain() ;; !{find_last(@height_map, 0, @state_hash)}
never break(%vector<hash_t>)
raise {find_last(@height_map, 0, @state_hash)} ;; !{get_header_at((-min(@params.commit_delay, fold(out(find_last#v, @state_hash), (~ + -1))) + fold(out(find_last#v, @state_hash), (~ + -1))))}
value fold(get_header_at((-min(@params.commit_delay, fold(out(find_last#v, @state_hash), (~ + -1))) + fold(out(find_last#v, @state_hash), (~ + -1)))), find_prev(~, 1, false))
exit {did @root = 0}
exit {did clear(@contract_cache)}
exit {did clear(@fork_index)}
exit {did clear(@fork_tree)}
exit {did clear(@history)}
exit {did clear(@history_log)}
exit {did find_last(@height_map, 0, @state_hash)}
exit {did open(@blocks, "rb+")}
exit !{find_last(@height_map, 0, @state_hash)} | {did @mmx_address_count = 0}
exit !{find_last(@height_map, 0, @state_hash)} | {did @root = get_header_at((-min(@params.commit_delay, …) + ‥))}
exit !{find_last(@height_map, 0, @state_hash)} | {did at(@history, ‥.hash) = …}
exit !{find_last(@height_map, 0, @state_hash)} | {did find_range(@height_index, get_header_at((-min(@params.commit_delay, …) + ‥)).height, (‥ + 1), %vector<hash_t>)}
exit !{find_last(@height_map, 0, @state_hash)} | {did insert(@history_log, ‥.height, ‥.hash)}
exit !{find_last(@height_map, 0, @state_hash)} | {did scan(@balance_table, lambda)}
exit !{find_last(@height_map, 0, @state_hash)} | {get_header_at((-min(@params.commit_delay, …) + ‥))}
exit {did init_chain()} | {find_last(@height_map, 0, @state_hash)}
exit {did open(@blocks, "wb")} | {find_last(@height_map, 0, @state_hash)}
exit {did revert(@db_blocks, 0)} | {find_last(@height_map, 0, @state_hash)}
exit !{find_last(@height_map, 0, @state_hash)} | !{get_block(elem(%vector<hash_t>))} | {did %shared_ptr<Node::fork_t>.block = get_block(elem(%vector<hash_t>))}
exit !{find_last(@height_map, 0, @state_hash)} | !{get_block(elem(%vector<hash_t>))} | {did %shared_ptr<Node::fork_t>.is_vdf_verified = true}
exit !{find_last(@height_map, 0, @state_hash)} | !{get_block(elem(%vector<hash_t>))} | {did add_fork(%shared_ptr<Node::fork_t>)}
at @root = 0
at clear(@fork_tree)
at clear(@fork_index)
at clear(@history)
at clear(@history_log)
at clear(@contract_cache)
at find_last(@height_map, 0, @state_hash)
at open(@blocks, "rb+")
at revert(…) ;; {…}
at @root = get_header_at((-min(@params.commit_delay, …) + ‥)) ;; {find_last(@height_map, 0, @state_hash)}
at find_range(@height_index, get_header_at((-min(@params.commit_delay, …) + ‥)).height, (‥ + 1), %vector<hash_t>) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, …) + ‥))}
at %shared_ptr<Node::fork_t>.block = get_block(elem(%vector<hash_t>)) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, …) + ‥))} ;; {get_block(elem(%vector<hash_t>))}
at %shared_ptr<Node::fork_t>.is_vdf_verified = true ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, …) + ‥))} ;; {get_block(elem(%vector<hash_t>))}
at add_fork(%shared_ptr<Node::fork_t>) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, …) + ‥))} ;; {get_block(elem(%vector<hash_t>))}
at at(@history, ‥.hash) = … ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, …) + ‥))} ;; {…} ;; {size(@history) < @max_history}
at insert(@history_log, ‥.height, ‥.hash) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, …) + ‥))} ;; {…} ;; {size(@history) < @max_history}
at @mmx_address_count = 0 ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, …) + ‥))}
at scan(@balance_table, lambda) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, …) + ‥))}
at @mmx_address_count = (@mmx_address_count + 1) ;; {find_last(@height_map, 0, @state_hash)} ;; {get_header_at((-min(@params.commit_delay, …) + ‥))} ;; {999999 < $cb1} ;; {$cb0.second == ctor(addr_t)}
at open(@blocks, "wb") ;; !{find_last(@height_map, 0, @state_hash)}
at revert(@db_blocks, 0) ;; !{find_last(@height_map, 0, @state_hash)}
at init_chain() ;; !{find_last(@height_map, 0, @state_hash)}
never break(loop) ;; {find_last(@height_map, 0, @state_hash)}
fn mmx::Node::commit
never break(loop)
at erase(@proof_map, fold(begin(@challenge_map), (~ + 1)).second) ;; !{fold(begin(@challenge_map), (~ + 1)) == upper_bound(@challenge_map, $0.vdf_height)}
at erase(@vdf_tree, fold(begin(@vdf_index), (~ + 1)).second.output) ;; !{fold(begin(@vdf_index), (~ + 1)) == upper_bound(@vdf_index, $0.vdf_iters)}
never lock(fold(rbegin(@fork_index), (~ + 1)).second.prev) ;; !{fold(rbegin(@fork_index), (~ + 1)) == rend(@fork_index)}
at lock(fold(rbegin(@fork_index), (~ + 1)).second.prev).fork_length = max((fold(rbegin(@fork_index), (~ + 1)).second.fork_length + 1), lock(fold(rbegin(@fork_index), (~ + 1)).second.prev).fork_length) ;; !{fold(rbegin(@fork_index), (~ + 1)) == rend(@fork_index)} ;; {lock(fold(rbegin(@fork_index), (~ + 1)).second.prev)}
at erase(@fork_tree, fold(equal_range(@fork_index, $0.height).first, (~ + 1)).second.block.hash) ;; !{equal_range(@fork_index, $0.height).second == fold(equal_range(@fork_index, $0.height).first, (~ + 1))}
at write_block(fold(equal_range(@fork_index, $0.height).first, (~ + 1)).second.block, false) ;; !{equal_range(@fork_index, $0.height).second == fold(equal_range(@fork_index, $0.height).first, (~ + 1))} ;; {erase(@fork_tree, fold(equal_range(@fork_index, $0.height).first, (~ + 1)).second.block.hash)} ;; {fold(equal_range(@fork_index, $0.height).first, (~ + 1)).second.is_proof_verified}
at erase(@history, fold(begin(@history_log), erase(@history_log, ~)).second) ;; !{end(@history_log) == fold(begin(@history_log), erase(@history_log, ~))} ;; {(@max_history + fold(begin(@history_log), erase(@history_log, ~)).first) < $0.height}
at erase(@history_log, fold(begin(@history_log), erase(@history_log, ~))) ;; !{end(@history_log) == fold(begin(@history_log), erase(@history_log, ~))} ;; {(@max_history + fold(begin(@history_log), erase(@history_log, ~)).first) < $0.height}
each erase(@proof_map, fold(begin(@challenge_map), (~ + 1)).second) ;; !{fold(begin(@challenge_map), (~ + 1)) == upper_bound(@challenge_map, $0.vdf_height)}
each erase(@challenge_map, begin(@challenge_map), upper_bound(@challenge_map, $0.vdf_height))
each erase(@vdf_tree, fold(begin(@vdf_index), (~ + 1)).second.output) ;; !{fold(begin(@vdf_index), (~ + 1)) == upper_bound(@vdf_index, $0.vdf_iters)}
each erase(@vdf_index, begin(@vdf_index), upper_bound(@vdf_index, $0.vdf_iters))
each erase(@fork_tree, $0.hash)
each equal_range(@fork_index, $0.height)
each erase(@fork_tree, fold(equal_range(@fork_index, $0.height).first, (~ + 1)).second.block.hash) ;; !{equal_range(@fork_index, $0.height).second == fold(equal_range(@fork_index, $0.height).first, (~ + 1))}
each write_block(fold(equal_range(@fork_index, $0.height).first, (~ + 1)).second.block, false) ;; !{equal_range(@fork_index, $0.height).second == fold(equal_range(@fork_index, $0.height).first, (~ + 1))} ;; {erase(@fork_tree, fold(equal_range(@fork_index, $0.height).first, (~ + 1)).second.block.hash)} ;; {fold(equal_range(@fork_index, $0.height).first, (~ + 1)).second.is_proof_verified}
each erase(@fork_index, $0.height)
each @root = $0
each at(@history, $0.hash) = get_header($0)
each insert(@history_log, $0.height, $0.hash)
each erase(@history, fold(begin(@history_log), erase(@history_log, ~)).second) ;; !{end(@history_log) == fold(begin(@history_log), erase(@history_log, ~))} ;; {(@max_history + fold(begin(@history_log), erase(@history_log, ~)).first) < $0.height}
each erase(@history_log, fold(begin(@history_log), erase(@history_log, ~))) ;; !{end(@history_log) == fold(begin(@history_log), erase(@history_log, ~))} ;; {(@max_history + fold(begin(@history_log), erase(@history_log, ~)).first) < $0.height}
each publish($0, @output_committed_blocks, ite({@is_synced}, 0, BLOCKING))
raise {$0.height} ;; !{$0.prev == get_root().hash}
value fold(begin(@vdf_index), (~ + 1))
value fold(rbegin(@fork_index), (~ + 1))
value fold(begin(@challenge_map), (~ + 1))
value fold(begin(@history_log), erase(@history_log, ~))
value fold(equal_range(@fork_index, $0.height).first, (~ + 1))
exit {did @root = $0}
exit {did at(@history, $0.hash) = get_header($0)}
exit {did equal_range(@fork_index, $0.height)}
exit {did erase(@challenge_map, begin(@challenge_map), upper_bound(@challenge_map, $0.vdf_height))}
exit {did erase(@fork_index, $0.height)}
exit {did erase(@fork_tree, $0.hash)}
exit {did erase(@fork_tree, ‥.second.block.hash)}
exit {did erase(@history, ‥.second)}
exit {did erase(@history_log, …)}
exit {did erase(@proof_map, ‥.second)}
exit {did erase(@vdf_index, begin(@vdf_index), upper_bound(@vdf_index, $0.vdf_iters))}
exit {did erase(@vdf_tree, ‥.second.output)}
exit {did insert(@history_log, $0.height, $0.hash)}
exit {did publish($0, @output_committed_blocks, ite({@is_synced}, 0, BLOCKING))}
exit {equal_range(@fork_index, $0.height).second == …}
exit {‥ == upper_bound(@challenge_map, $0.vdf_height)}
exit {‥ == upper_bound(@vdf_index, $0.vdf_iters)}
exit {‥ == rend(@fork_index)}
exit !{$0.height} | {$0.prev == get_root().hash}
exit !{(@max_history + ‥.first) < $0.height} | {end(@history_log) == …}
exit !{lock(‥.second.prev)} | {did lock(‥.second.prev).fork_length = max((‥.second.fork_length + 1), lock(‥.second.prev).fork_length)}
exit !{erase(@fork_tree, ‥.second.block.hash)} | !{‥.second.is_proof_verified} | {did write_block(‥.second.block, false)}
at erase(@proof_map, ‥.second) ;; !{‥ == upper_bound(@challenge_map, $0.vdf_height)}
at erase(@challenge_map, begin(@challenge_map), upper_bound(@challenge_map, $0.vdf_height))
at erase(@vdf_tree, ‥.second.output) ;; !{‥ == upper_bound(@vdf_index, $0.vdf_iters)}
at erase(@vdf_index, begin(@vdf_index), upper_bound(@vdf_index, $0.vdf_iters))
at lock(‥.second.prev).fork_length = max((‥.second.fork_length + 1), lock(‥.second.prev).fork_length) ;; !{‥ == rend(@fork_index)} ;; {lock(‥.second.prev)}
at erase(@fork_tree, $0.hash)
at equal_range(@fork_index, $0.height)
at erase(@fork_tree, ‥.second.block.hash) ;; !{equal_range(@fork_index, $0.height).second == …}
at write_block(‥.second.block, false) ;; !{equal_range(@fork_index, $0.height).second == …} ;; {erase(@fork_tree, ‥.second.block.hash)} ;; {‥.second.is_proof_verified}
at erase(@fork_index, $0.height)
at @root = $0
at at(@history, $0.hash) = get_header($0)
at insert(@history_log, $0.height, $0.hash)
at erase(@history, ‥.second) ;; !{end(@history_log) == …} ;; {(@max_history + ‥.first) < $0.height}
at erase(@history_log, …) ;; !{end(@history_log) == …} ;; {(@max_history + ‥.first) < $0.height}
at publish($0, @output_committed_blocks, ite({@is_synced}, 0, BLOCKING))
fn mmx::Node::write_block
never break(loop)
never get_output_pos(fold(out(write‥, get_header($0), 0, 0), out(write‥, elem($0.tx_list), 0, 0), $0.tx_list)) ;; {$1}
never get_tx_index(elem($0.tx_list), @params, $0, get_output_pos(fold(out(write‥, get_header($0), 0, 0), out(write‥, elem($0.tx_list), 0, 0), $0.tx_list))) ;; {$1}
at push_back(%vector<pair<hash_t,tx_index_t>>, elem($0.tx_list).id, get_tx_index(elem($0.tx_list), @params, $0, get_output_pos(fold(out(write‥, get_header($0), 0, 0), out(write‥, elem($0.tx_list), 0, 0), $0.tx_list)))) ;; {$1}
each find(@block_index, $0.hash, %block_index_t, 4294967295)
each seek_to(@blocks, %block_index_t.file_offset) ;; {find(@block_index, $0.hash, %block_index_t, 4294967295)}
each read_block(@blocks, true, %vector<long>) ;; {find(@block_index, $0.hash, %block_index_t, 4294967295)}
each insert(@tx_index, at($0.tx_list, idx($0.tx_count)).id, get_tx_index(at($0.tx_list, idx($0.tx_count)), @params, $0, at(%vector<long>, idx($0.tx_count)))) ;; {find(@block_index, $0.hash, %block_index_t, 4294967295)} ;; {read_block(@blocks, true, %vector<long>)} ;; {is_valid(read_block(@blocks, true, %vector<long>), @params)} ;; {$0.tx_count == size(%vector<long>)} ;; {$0.tx_count == size($0.tx_list)} ;; {$1}
each seek_end(@blocks)
each write(@blocks.out, get_header($0), 0, 0)
each push_back(%vector<pair<hash_t,tx_index_t>>, elem($0.tx_list).id, get_tx_index(elem($0.tx_list), @params, $0, get_output_pos(fold(out(write‥, get_header($0), 0, 0), out(write‥, elem($0.tx_list), 0, 0), $0.tx_list)))) ;; {$1}
each write(fold(out(write‥, get_header($0), 0, 0), out(write‥, elem($0.tx_list), 0, 0), $0.tx_list), elem($0.tx_list), 0, 0)
each insert(@tx_index, elem(%vector<pair<hash_t,tx_index_t>>).first, elem(%vector<pair<hash_t,tx_index_t>>).second)
each write(fold(out(write‥, get_header($0), 0, 0), out(write‥, elem($0.tx_list), 0, 0), $0.tx_list), 0)
each insert(@block_index, $0.hash, get_block_index($0, get_output_pos(@blocks.out)))
each find(@height_index, $0.height, %vector<hash_t>, false)
each insert(@height_index, $0.height, $0.hash) ;; {end(%vector<hash_t>) == find(begin(%vector<hash_t>), end(%vector<hash_t>), $0.hash)}
each commit(@db_blocks, (version(@db_blocks) + 1))
never break($0.tx_list)
never break(%vector<pair<hash_t,tx_index_t>>)
raise {find(@block_index, $0.hash, %block_index_t, 4294967295)} ;; {read_block(@blocks, true, %vector<long>)} ;; !{is_valid(read_block(@blocks, true, %vector<long>), @params)}
raise {find(@block_index, $0.hash, %block_index_t, 4294967295)} ;; !{read_block(@blocks, true, %vector<long>)}
raise {find(@block_index, $0.hash, %block_index_t, 4294967295)} ;; {read_block(@blocks, true, %vector<long>)} ;; {is_valid(read_block(@blocks, true, %vector<long>), @params)} ;; !{$0.tx_count == size(%vector<long>)}
raise {find(@block_index, $0.hash, %block_index_t, 4294967295)} ;; {read_block(@blocks, true, %vector<long>)} ;; {is_valid(read_block(@blocks, true, %vector<long>), @params)} ;; {$0.tx_count == size(%vector<long>)} ;; !{$0.tx_count == size($0.tx_list)}
value fold(out(write#v, get_header($0), 0, 0), out(write#v, elem($0.tx_list), 0, 0), $0.tx_list)
exit {$0.tx_count == size($0.tx_list)} | {did commit(@db_blocks, (version(@db_blocks) + 1))}
exit {$0.tx_count == size($0.tx_list)} | {did find(@height_index, $0.height, %vector<hash_t>, false)}
exit {$0.tx_count == size($0.tx_list)} | {did flush(@blocks)}
exit {$0.tx_count == size($0.tx_list)} | {did insert(@block_index, $0.hash, get_block_index($0, get_output_pos(@blocks.out)))}
exit {$0.tx_count == size($0.tx_list)} | {did insert(@tx_index, elem(%vector<pair<hash_t,tx_index_t>>).first, elem(%vector<pair<hash_t,tx_index_t>>).second)}
exit {$0.tx_count == size($0.tx_list)} | {did seek_end(@blocks)}
exit {$0.tx_count == size($0.tx_list)} | {did write(@blocks.out, get_header($0), 0, 0)}
exit {$0.tx_count == size($0.tx_list)} | {did write(…, 0)}
exit {$0.tx_count == size($0.tx_list)} | {did write(…, elem($0.tx_list), 0, 0)}
exit {$0.tx_count == size(%vector<long>)} | {did commit(@db_blocks, (version(@db_blocks) + 1))}
exit {$0.tx_count == size(%vector<long>)} | {did find(@height_index, $0.height, %vector<hash_t>, false)}
exit {$0.tx_count == size(%vector<long>)} | {did flush(@blocks)}
exit {$0.tx_count == size(%vector<long>)} | {did insert(@block_index, $0.hash, get_block_index($0, get_output_pos(@blocks.out)))}
exit {$0.tx_count == size(%vector<long>)} | {did insert(@tx_index, elem(%vector<pair<hash_t,tx_index_t>>).first, elem(%vector<pair<hash_t,tx_index_t>>).second)}
exit {$0.tx_count == size(%vector<long>)} | {did seek_end(@blocks)}
exit {$0.tx_count == size(%vector<long>)} | {did write(@blocks.out, get_header($0), 0, 0)}
exit {$0.tx_count == size(%vector<long>)} | {did write(…, 0)}
exit {$0.tx_count == size(%vector<long>)} | {did write(…, elem($0.tx_list), 0, 0)}
exit {did commit(@db_blocks, (version(@db_blocks) + 1))} | {find(@block_index, $0.hash, %block_index_t, 4294967295)}
exit {did commit(@db_blocks, (version(@db_blocks) + 1))} | {is_valid(read_block(@blocks, true, %vector<long>), @params)}
exit {did commit(@db_blocks, (version(@db_blocks) + 1))} | {read_block(@blocks, true, %vector<long>)}
exit {did find(@height_index, $0.height, %vector<hash_t>, false)} | {find(@block_index, $0.hash, %block_index_t, 4294967295)}
exit {did find(@height_index, $0.height, %vector<hash_t>, false)} | {is_valid(read_block(@blocks, true, %vector<long>), @params)}
exit {did find(@height_index, $0.height, %vector<hash_t>, false)} | {read_block(@blocks, true, %vector<long>)}
exit {did insert(@block_index, $0.hash, get_block_index($0, get_output_pos(@blocks.out)))} | {find(@block_index, $0.hash, %block_index_t, 4294967295)}
exit {did insert(@block_index, $0.hash, get_block_index($0, get_output_pos(@blocks.out)))} | {is_valid(read_block(@blocks, true, %vector<long>), @params)}
exit {did insert(@block_index, $0.hash, get_block_index($0, get_output_pos(@blocks.out)))} | {read_block(@blocks, true, %vector<long>)}
exit {did insert(@tx_index, elem(%vector<pair<hash_t,tx_index_t>>).first, elem(%vector<pair<hash_t,tx_index_t>>).second)} | {find(@block_index, $0.hash, %block_index_t, 4294967295)}
exit {did insert(@tx_index, elem(%vector<pair<hash_t,tx_index_t>>).first, elem(%vector<pair<hash_t,tx_index_t>>).second)} | {is_valid(read_block(@blocks, true, %vector<long>), @params)}
exit {did insert(@tx_index, elem(%vector<pair<hash_t,tx_index_t>>).first, elem(%vector<pair<hash_t,tx_index_t>>).second)} | {read_block(@blocks, true, %vector<long>)}
exit {did seek_end(@blocks)} | {find(@block_index, $0.hash, %block_index_t, 4294967295)}
exit {did seek_end(@blocks)} | {is_valid(read_block(@blocks, true, %vector<long>), @params)}
exit {did seek_end(@blocks)} | {read_block(@blocks, true, %vector<long>)}
exit {did write(@blocks.out, get_header($0), 0, 0)} | {find(@block_index, $0.hash, %block_index_t, 4294967295)}
exit {did write(@blocks.out, get_header($0), 0, 0)} | {is_valid(read_block(@blocks, true, %vector<long>), @params)}
exit {did write(@blocks.out, get_header($0), 0, 0)} | {read_block(@blocks, true, %vector<long>)}
exit {did write(…, 0)} | {find(@block_index, $0.hash, %block_index_t, 4294967295)}
exit {did write(…, 0)} | {is_valid(read_block(@blocks, true, %vector<long>), @params)}
exit {did write(…, 0)} | {read_block(@blocks, true, %vector<long>)}
exit {did write(…, elem($0.tx_list), 0, 0)} | {find(@block_index, $0.hash, %block_index_t, 4294967295)}
exit {did write(…, elem($0.tx_list), 0, 0)} | {is_valid(read_block(@blocks, true, %vector<long>), @params)}
exit {did write(…, elem($0.tx_list), 0, 0)} | {read_block(@blocks, true, %vector<long>)}
exit !{$1} | {$0.tx_count == size($0.tx_list)} | {did push_back(%vector<pair<hash_t,tx_index_t>>, elem($0.tx_list).id, get_tx_index(elem($0.tx_list), @params, $0, get_output_pos(…)))}
exit !{$1} | {$0.tx_count == size(%vector<long>)} | {did push_back(%vector<pair<hash_t,tx_index_t>>, elem($0.tx_list).id, get_tx_index(elem($0.tx_list), @params, $0, get_output_pos(…)))}
exit !{$1} | {did push_back(%vector<pair<hash_t,tx_index_t>>, elem($0.tx_list).id, get_tx_index(elem($0.tx_list), @params, $0, get_output_pos(…)))} | {find(@block_index, $0.hash, %block_index_t, 4294967295)}
exit !{$1} | {did push_back(%vector<pair<hash_t,tx_index_t>>, elem($0.tx_list).id, get_tx_index(elem($0.tx_list), @params, $0, get_output_pos(…)))} | {is_valid(read_block(@blocks, true, %vector<long>), @params)}
exit !{$1} | {did push_back(%vector<pair<hash_t,tx_index_t>>, elem($0.tx_list).id, get_tx_index(elem($0.tx_list), @params, $0, get_output_pos(…)))} | {read_block(@blocks, true, %vector<long>)}
exit !{end(%vector<hash_t>) == find(begin(%vector<hash_t>), end(%vector<hash_t>), $0.hash)} | {$0.tx_count == size($0.tx_list)} | {did insert(@height_index, $0.height, $0.hash)}
exit !{end(%vector<hash_t>) == find(begin(%vector<hash_t>), end(%vector<hash_t>), $0.hash)} | {$0.tx_count == size(%vector<long>)} | {did insert(@height_index, $0.height, $0.hash)}
exit !{end(%vector<hash_t>) == find(begin(%vector<hash_t>), end(%vector<hash_t>), $0.hash)} | {did insert(@height_index, $0.height, $0.hash)} | {find(@block_index, $0.hash, %block_index_t, 4294967295)}
exit !{end(%vector<hash_t>) == find(begin(%vector<hash_t>), end(%vector<hash_t>), $0.hash)} | {did insert(@height_index, $0.height, $0.hash)} | {is_valid(read_block(@blocks, true, %vector<long>), @params)}
exit !{end(%vector<hash_t>) == find(begin(%vector<hash_t>), end(%vector<hash_t>), $0.hash)} | {did insert(@height_index, $0.height, $0.hash)} | {read_block(@blocks, true, %vector<long>)}
at find(@block_index, $0.hash, %block_index_t, 4294967295)
at seek_to(@blocks, %block_index_t.file_offset) ;; {find(@block_index, $0.hash, %block_index_t, 4294967295)}
at read_block(@blocks, true, %vector<long>) ;; {find(@block_index, $0.hash, %block_index_t, 4294967295)}
at insert(@tx_index, at($0.tx_list, idx($0.tx_count)).id, get_tx_index(at($0.tx_list, idx($0.tx_count)), @params, $0, at(%vector<long>, idx($0.tx_count)))) ;; {find(@block_index, $0.hash, %block_index_t, 4294967295)} ;; {read_block(@blocks, true, %vector<long>)} ;; {is_valid(read_block(@blocks, true, %vector<long>), @params)} ;; {$0.tx_count == size(%vector<long>)} ;; {$0.tx_count == size($0.tx_list)} ;; {$1}
at seek_end(@blocks)
at write(@blocks.out, get_header($0), 0, 0)
at push_back(%vector<pair<hash_t,tx_index_t>>, elem($0.tx_list).id, get_tx_index(elem($0.tx_list), @params, $0, get_output_pos(…))) ;; {$1}
at write(…, elem($0.tx_list), 0, 0)
at insert(@tx_index, elem(%vector<pair<hash_t,tx_index_t>>).first, elem(%vector<pair<hash_t,tx_index_t>>).second)
at write(…, 0)
at flush(@blocks)
at insert(@block_index, $0.hash, get_block_index($0, get_output_pos(@blocks.out)))
at find(@height_index, $0.height, %vector<hash_t>, false)
at insert(@height_index, $0.height, $0.hash) ;; {end(%vector<hash_t>) == find(begin(%vector<hash_t>), end(%vector<hash_t>), $0.hash)}
at commit(@db_blocks, (version(@db_blocks) + 1))
at insert(@block_index, …) ;; {did write(@blocks.out, get_header($0), 0, 0)} ;; {did flush(@blocks)} ;; {did write(…, 0)}
at flush(@blocks) ;; {did write(…, 0)} ;; {did write(@blocks.out, get_header($0), 0, 0)}
at commit(@db_blocks, …) ;; {did insert(@block_index, …)} ;; {did flush(@blocks)} ;; {did find(@height_index, $0.height, %vector<hash_t>, false)}
at write(@blocks.out, get_header($0), 0, 0) ;; {did seek_end(@blocks)}
fn mmx::Node::read_block
never get_input_pos(fold(out(read‥), out(read‥))) ;; {is<BlockHeader>(read($0.in))} ;; {read($0.in)} ;; {$1}
at read(fold(out(read‥), out(read‥))) ;; {is<BlockHeader>(read($0.in))} ;; {read($0.in)} ;; {$1}
at push_back($2, get_input_pos(fold(out(read‥), out(read‥)))) ;; {is<BlockHeader>(read($0.in))} ;; {read($0.in)} ;; {$1} ;; {read(fold(out(read‥), out(read‥)))} ;; {is<Transaction>(read(fold(out(read‥), out(read‥))))} ;; {$2}
at push_back(%shared_ptr<Block>.tx_list, read(fold(out(read‥), out(read‥)))) ;; {is<BlockHeader>(read($0.in))} ;; {read($0.in)} ;; {$1} ;; {read(fold(out(read‥), out(read‥)))} ;; {is<Transaction>(read(fold(out(read‥), out(read‥))))}
each clear($2) ;; {$2}
each read($0.in)
each operator=(%shared_ptr<Block>, read($0.in)) ;; {is<BlockHeader>(read($0.in))} ;; {read($0.in)} ;; {$1}
each read(fold(out(read‥), out(read‥))) ;; {is<BlockHeader>(read($0.in))} ;; {read($0.in)} ;; {$1}
each push_back($2, get_input_pos(fold(out(read‥), out(read‥)))) ;; {is<BlockHeader>(read($0.in))} ;; {read($0.in)} ;; {$1} ;; {read(fold(out(read‥), out(read‥)))} ;; {is<Transaction>(read(fold(out(read‥), out(read‥))))} ;; {$2}
each push_back(%shared_ptr<Block>.tx_list, read(fold(out(read‥), out(read‥)))) ;; {is<BlockHeader>(read($0.in))} ;; {read($0.in)} ;; {$1} ;; {read(fold(out(read‥), out(read‥)))} ;; {is<Transaction>(read(fold(out(read‥), out(read‥))))}
raise {is<BlockHeader>(read($0.in))} ;; {read($0.in)} ;; {$1} ;; {read(fold(out(read#v), out(read#v)))} ;; !{is<Transaction>(read(fold(out(read#v), out(read#v))))} | !{read(fold(out(read#v), out(read#v)))}
value fold(out(read#v), out(read#v))
exit !{$1} | !{is<BlockHeader>(read($0.in))} | !{read($0.in)} | {ret = %shared_ptr<Block>}
exit !{is<BlockHeader>(read($0.in))} | !{read($0.in)} | {$1} | {ret = read($0.in)}
exit {is<BlockHeader>(read($0.in))} | {ret = 0}
exit {read($0.in)} | {ret = 0}
exit !{$2} | {did clear($2)}
exit {is<BlockHeader>(read($0.in))} | {ret = 0}
exit {read($0.in)} | {ret = 0}
exit !{is<BlockHeader>(read($0.in))} | !{read($0.in)} | {did read($0.in)}
exit !{$1} | !{is<BlockHeader>(read($0.in))} | !{read($0.in)} | !{read(…)}
exit !{$1} | !{is<BlockHeader>(read($0.in))} | !{read($0.in)} | {did operator=(%shared_ptr<Block>, read($0.in))}
exit !{$1} | !{is<BlockHeader>(read($0.in))} | !{read($0.in)} | {did read(…)}
exit !{$1} | !{is<BlockHeader>(read($0.in))} | !{read($0.in)} | {ret = %shared_ptr<Block>}
exit !{is<BlockHeader>(read($0.in))} | !{read($0.in)} | {$1} | {ret = read($0.in)}
at clear($2) ;; {$2}
at read($0.in)
at operator=(%shared_ptr<Block>, read($0.in)) ;; {is<BlockHeader>(read($0.in))} ;; {read($0.in)} ;; {$1}
at read(…)
at push_back($2, get_input_pos(…)) ;; {is<BlockHeader>(read($0.in))} ;; {read($0.in)} ;; {$1} ;; {read(…)} ;; {is<Transaction>(read(…))} ;; {read(…)} ;; {$2}
at push_back(%shared_ptr<Block>.tx_list, read(…)) ;; {is<BlockHeader>(read($0.in))} ;; {read($0.in)} ;; {$1} ;; {read(…)} ;; {is<Transaction>(read(…))} ;; {read(…)}
never break(loop) ;; {is<BlockHeader>(read($0.in))} ;; {read($0.in)} ;; {$1} ;; !{read(fold(out(read‥), out(read‥)))}
fn mmx::Node::add_block
each validate($0) ;; {is_valid($0, @params)}
each write_block($0, false) ;; !{get_root().height < $0.height}
each %shared_ptr<Node::fork_t>.block = $0 ;; {get_root().height < $0.height}
each add_fork(%shared_ptr<Node::fork_t>) ;; {get_root().height < $0.height}
each trigger_update() ;; {get_root().height < $0.height} ;; {@is_synced}
raise !{is_valid($0, @params)}
at validate($0) ;; {is_valid($0, @params)}
at write_block($0, false) ;; !{get_root().height < $0.height} ;; {is_valid($0, @params)}
at %shared_ptr<Node::fork_t>.block = $0 ;; {get_root().height < $0.height} ;; {is_valid($0, @params)}
at add_fork(%shared_ptr<Node::fork_t>) ;; {get_root().height < $0.height} ;; {is_valid($0, @params)}
at trigger_update() ;; {get_root().height < $0.height} ;; {@is_synced} ;; {is_valid($0, @params)}
fn mmx::Node::add_fork
each $0.recv_time_ms = get_time_ms() ;; {get_root().height < $0.block.height} ;; !{$0.recv_time_ms}
each $0.prev = find_fork($0.block.prev) ;; {get_root().height < $0.block.height}
each insert(@fork_tree, $0.block.hash, $0) ;; {get_root().height < $0.block.height}
each insert(@fork_index, $0.block.height, $0) ;; {get_root().height < $0.block.height} ;; {inserted(@fork_tree, $0.block.hash)}
never throw …
exit !{get_root().height < $0.block.height} | {did $0.prev = find_fork($0.block.prev)}
exit !{get_root().height < $0.block.height} | {did insert(@fork_tree, $0.block.hash, $0)}
exit !{get_root().height < $0.block.height} | !{inserted(@fork_tree, $0.block.hash)} | {did insert(@fork_index, $0.block.height, $0)}
exit !{get_root().height < $0.block.height} | {$0.recv_time_ms} | {did $0.recv_time_ms = get_time_ms()}
at $0.recv_time_ms = get_time_ms() ;; {get_root().height < $0.block.height} ;; !{$0.recv_time_ms}
at $0.prev = find_fork($0.block.prev) ;; {get_root().height < $0.block.height}
at insert(@fork_tree, $0.block.hash, $0) ;; {get_root().height < $0.block.height}
at insert(@fork_index, $0.block.height, $0) ;; {get_root().height < $0.block.height} ;; {inserted(@fork_tree, $0.block.hash)}
fn mmx::Node::init_chain
each %shared_ptr<Block>.nonce = @params.port
each %shared_ptr<Block>.time_stamp = @params.initial_time_stamp
each %shared_ptr<Block>.time_diff = (@params.initial_time_diff * @params.time_diff_divider)
each %shared_ptr<Block>.space_diff = @params.initial_space_diff
each %shared_ptr<Block>.vdf_output = ctor(hash_t, (("MMX/" ++ @params.network) ++ "/vdf/0"))
each %shared_ptr<Block>.challenge = ctor(hash_t, (("MMX/" ++ @params.network) ++ "/challenge/0"))
each from_string(read_file((("data/" ++ @params.network) ++ "/tx_testnet_rewards.json")), 0) ;; {"mainnet" == @params.network}
each push_back(%shared_ptr<Block>.tx_list, out(from_string‥, read_file((("data/" ++ @params.network) ++ "/tx_testnet_rewards.json")))) ;; {"mainnet" == @params.network} ;; {out(from_string‥, read_file((("data/" ++ @params.network) ++ "/tx_testnet_rewards.json")))}
each push_back(%shared_ptr<Block>.tx_list, read_from_file((("data/" ++ @params.network) ++ "/tx_offer_binary.dat")))
each push_back(%shared_ptr<Block>.tx_list, read_from_file((("data/" ++ @params.network) ++ "/tx_swap_binary.dat")))
each push_back(%shared_ptr<Block>.tx_list, read_from_file((("data/" ++ @params.network) ++ "/tx_token_binary.dat")))
each push_back(%shared_ptr<Block>.tx_list, read_from_file((("data/" ++ @params.network) ++ "/tx_plot_nft_binary.dat")))
each push_back(%shared_ptr<Block>.tx_list, read_from_file((("data/" ++ @params.network) ++ "/tx_nft_binary.dat")))
each push_back(%shared_ptr<Block>.tx_list, read_from_file((("data/" ++ @params.network) ++ "/tx_template_binary.dat")))
each push_back(%shared_ptr<Block>.tx_list, read_from_file((("data/" ++ @params.network) ++ "/tx_escrow_binary.dat")))
each push_back(%shared_ptr<Block>.tx_list, read_from_file((("data/" ++ @params.network) ++ "/tx_time_lock_binary.dat")))
each push_back(%shared_ptr<Block>.tx_list, read_from_file((("data/" ++ @params.network) ++ "/tx_relay_binary.dat")))
each %shared_ptr<Block>.project_addr = read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")).id ;; {"mainnet" == @params.network} ;; {read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat"))} ;; {is_valid(read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")), @params)} ;; {read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")).sender} ;; {4294967295 == read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")).expires} ;; {is<contract::Executable>(read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")).deploy)} ;; {read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")).deploy} ;; {@params.relay_binary == read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")).deploy.binary}
each %shared_ptr<Block>.project_addr = ctor(addr_t, "mmx1kx69pm743rshqac5lgcstlr8nq4t93hzm8gumkkxmp5y9fglnkes6ve09z") ;; !{"mainnet" == @params.network}
each finalize(%shared_ptr<Block>, @params)
each %shared_ptr<Block>.content_hash = calc_content_hash(%shared_ptr<Block>)
each apply(%shared_ptr<Block>, 0) ;; {is_valid(%shared_ptr<Block>, @params)}
each commit(%shared_ptr<Block>) ;; {is_valid(%shared_ptr<Block>, @params)}
never break(out(from_string‥, read_file((("data/" ++ @params.network) ++ "/tx_testnet_rewards.json"))).outputs)
never break(%shared_ptr<Block>.tx_list)
raise {"mainnet" == @params.network} ;; !{out(from_string#v, read_file((("data/" ++ @params.network) ++ "/tx_testnet_rewards.json")))}
raise {"mainnet" == @params.network} ;; {read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat"))} ;; !{4294967295 == read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")).expires} | !{@params.relay_binary == read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")).deploy.binary} | !{is<contract::Executable>(read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")).deploy)} | !{is_valid(read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")), @params)} | !{read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")).deploy} | !{read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")).sender}
raise {"mainnet" == @params.network} ;; !{read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat"))}
raise !{elem(%shared_ptr<Block>.tx_list)}
raise {elem(%shared_ptr<Block>.tx_list)} ;; !{@params.network == elem(%shared_ptr<Block>.tx_list).network}
raise !{is_valid(%shared_ptr<Block>, @params)}
exit {@params.network == elem(%shared_ptr<Block>.tx_list).network}
exit {did %shared_ptr<Block>.challenge = ctor(hash_t, (("MMX/" ++ @params.network) ++ "/challenge/0"))}
exit {did %shared_ptr<Block>.content_hash = calc_content_hash(%shared_ptr<Block>)}
exit {did %shared_ptr<Block>.nonce = @params.port}
exit {did %shared_ptr<Block>.space_diff = @params.initial_space_diff}
exit {did %shared_ptr<Block>.time_diff = (@params.initial_time_diff * @params.time_diff_divider)}
exit {did %shared_ptr<Block>.time_stamp = @params.initial_time_stamp}
exit {did %shared_ptr<Block>.vdf_output = ctor(hash_t, (("MMX/" ++ @params.network) ++ "/vdf/0"))}
exit {did apply(%shared_ptr<Block>, 0)}
exit {did commit(%shared_ptr<Block>)}
exit {did finalize(%shared_ptr<Block>, @params)}
exit {did push_back(%shared_ptr<Block>.tx_list, read_from_file((("data/" ++ @params.network) ++ "/tx_escrow_binary.dat")))}
exit {did push_back(%shared_ptr<Block>.tx_list, read_from_file((("data/" ++ @params.network) ++ "/tx_nft_binary.dat")))}
exit {did push_back(%shared_ptr<Block>.tx_list, read_from_file((("data/" ++ @params.network) ++ "/tx_offer_binary.dat")))}
exit {did push_back(%shared_ptr<Block>.tx_list, read_from_file((("data/" ++ @params.network) ++ "/tx_plot_nft_binary.dat")))}
exit {did push_back(%shared_ptr<Block>.tx_list, read_from_file((("data/" ++ @params.network) ++ "/tx_relay_binary.dat")))}
exit {did push_back(%shared_ptr<Block>.tx_list, read_from_file((("data/" ++ @params.network) ++ "/tx_swap_binary.dat")))}
exit {did push_back(%shared_ptr<Block>.tx_list, read_from_file((("data/" ++ @params.network) ++ "/tx_template_binary.dat")))}
exit {did push_back(%shared_ptr<Block>.tx_list, read_from_file((("data/" ++ @params.network) ++ "/tx_time_lock_binary.dat")))}
exit {did push_back(%shared_ptr<Block>.tx_list, read_from_file((("data/" ++ @params.network) ++ "/tx_token_binary.dat")))}
exit {elem(%shared_ptr<Block>.tx_list)}
exit {is_valid(%shared_ptr<Block>, @params)}
exit !{"mainnet" == @params.network} | {4294967295 == read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")).expires}
exit !{"mainnet" == @params.network} | {@params.relay_binary == read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")).deploy.binary}
exit !{"mainnet" == @params.network} | {did %shared_ptr<Block>.project_addr = read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")).id}
exit !{"mainnet" == @params.network} | {did from_string(read_file((("data/" ++ @params.network) ++ "/tx_testnet_rewards.json")), 0)}
exit !{"mainnet" == @params.network} | {did push_back(%shared_ptr<Block>.tx_list, …)}
exit !{"mainnet" == @params.network} | {is<contract::Executable>(read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")).deploy)}
exit !{"mainnet" == @params.network} | {is_valid(read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")), @params)}
exit !{"mainnet" == @params.network} | {read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")).deploy}
exit !{"mainnet" == @params.network} | {read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat")).sender}
exit !{"mainnet" == @params.network} | {read_from_file((("data/" ++ @params.network) ++ "/tx_project_relay.dat"))}
exit {"mainnet" == @params.network} | {did %shared_ptr<Block>.project_addr = ctor(addr_t, "mmx1kx69pm743rshqac5lgcstlr8nq4t93hzm8gumkkxmp5y9fglnkes6ve09z")}
fn mmx::Node::prefetch_balances
each add_task(@threads, lambda) ;; {63 < size($0)}
each sync(@threads) ;; {63 < size($0)}
never break($0)
never throw …
at add_task(@threads, lambda) ;; {63 < size($0)}
at sync(@threads) ;; {63 < size($0)}
