tus src/Node_update.cpp src/Node.cpp
fn mmx::Node::add_transaction
each reset(clone($0), @params) ;; {$0.exec_result}
each at(@tx_queue, ite({$0.exec_result}, clone($0), $0).content_hash) = ite({$0.exec_result}, clone($0), $0) ;; {size(@tx_queue) < @max_tx_queue}
each publish(ite({$0.exec_result}, clone($0), $0), @output_transactions, 0) ;; !{@vnx_sample}
raise {$1} ;; !{@is_synced}
raise {$1} ;; {@is_synced} ;; {validate(ite({$0.exec_result}, clone($0), $0)).did_fail}
exit !{$0.exec_result} | {did reset(clone($0), @params)}
exit !{$1} | !{validate(ite({$0.exec_result}, clone($0), $0)).did_fail}
exit !{$1} | {@is_synced}
exit !{size(@tx_queue) < @max_tx_queue} | {did at(@tx_queue, ite({$0.exec_result}, clone($0), $0).content_hash) = ite({$0.exec_result}, clone($0), $0)}
exit {@vnx_sample} | {did publish(ite({$0.exec_result}, clone($0), $0), @output_transactions, 0)}
at reset(clone($0), @params) ;; {$0.exec_result}
at at(@tx_queue, ite({$0.exec_result}, clone($0), $0).content_hash) = ite({$0.exec_result}, clone($0), $0) ;; {size(@tx_queue) < @max_tx_queue}
at publish(ite({$0.exec_result}, clone($0), $0), @output_transactions, 0) ;; !{@vnx_sample}
fn mmx::Node::handle sig=Transaction
each add_transaction($0, false) ;; {@is_synced}
never throw …
exit !{@is_synced} | {did add_transaction($0, false)}
at add_transaction($0, false) ;; {@is_synced}
fn mmx::Node::tx_pool_update
each at(@tx_pool_fees, $0.tx.sender) = ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0)) ;; !{$0.is_skipped} ;; {$0.tx} ;; {$0.tx.sender} ;; !{get_balance($0.tx.sender, ctor(addr_t)) < ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))} | {$1} ;; {has(@tx_pool_fees, $0.tx.sender)}
each at(@tx_pool_fees, $0.tx.sender) = ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0)) ;; !{$0.is_skipped} ;; {$0.tx} ;; {$0.tx.sender} ;; !{get_balance($0.tx.sender, ctor(addr_t)) < ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))} | {$1} ;; !{has(@tx_pool_fees, $0.tx.sender)}
each at(@tx_pool, $0.tx.id) = $0 ;; !{$0.is_skipped} ;; {$0.tx} ;; {$0.tx.sender} ;; !{get_balance($0.tx.sender, ctor(addr_t)) < ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))} | {$1} ;; {has(@tx_pool, $0.tx.id)}
each insert(@tx_pool_index, pair(elem(get_inputs($0.tx)).address, $0.tx.id), $0.tx) ;; !{$0.is_skipped} ;; {$0.tx} ;; {$0.tx.sender} ;; !{get_balance($0.tx.sender, ctor(addr_t)) < ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))} | {$1} ;; !{has(@tx_pool, $0.tx.id)}
each insert(@tx_pool_index, pair(elem(get_outputs($0.tx)).address, $0.tx.id), $0.tx) ;; !{$0.is_skipped} ;; {$0.tx} ;; {$0.tx.sender} ;; !{get_balance($0.tx.sender, ctor(addr_t)) < ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))} | {$1} ;; !{has(@tx_pool, $0.tx.id)}
each insert(@tx_pool_index, pair(ctor(hash_t, (elem(get_outputs($0.tx)).address ++ elem(get_outputs($0.tx)).memo)), $0.tx.id), $0.tx) ;; !{$0.is_skipped} ;; {$0.tx} ;; {$0.tx.sender} ;; !{get_balance($0.tx.sender, ctor(addr_t)) < ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))} | {$1} ;; !{has(@tx_pool, $0.tx.id)} ;; {elem(get_outputs($0.tx)).memo}
each at(@tx_pool, $0.tx.id) = $0 ;; !{$0.is_skipped} ;; {$0.tx} ;; {$0.tx.sender} ;; !{get_balance($0.tx.sender, ctor(addr_t)) < ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))} | {$1} ;; !{has(@tx_pool, $0.tx.id)}
never break(get_inputs($0.tx))
never break(get_outputs($0.tx))
raise {$0.is_skipped}
exit !{$0.is_skipped}
exit !{$0.tx.sender} | !{$0.tx} | !{$1} | {did at(@tx_pool, $0.tx.id) = $0}
exit !{$0.tx.sender} | !{$0.tx} | !{$1} | {did at(@tx_pool_fees, $0.tx.sender) = ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))}
exit !{$0.tx.sender} | !{$0.tx} | {did at(@tx_pool, $0.tx.id) = $0} | {get_balance($0.tx.sender, ctor(addr_t)) < ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))}
exit !{$0.tx.sender} | !{$0.tx} | {did at(@tx_pool_fees, $0.tx.sender) = ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))} | {get_balance($0.tx.sender, ctor(addr_t)) < ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))}
exit !{$0.tx.sender} | !{$0.tx} | !{$1} | {did insert(@tx_pool_index, pair(elem(get_inputs($0.tx)).address, $0.tx.id), $0.tx)} | {has(@tx_pool, $0.tx.id)}
exit !{$0.tx.sender} | !{$0.tx} | !{$1} | {did insert(@tx_pool_index, pair(elem(get_outputs($0.tx)).address, $0.tx.id), $0.tx)} | {has(@tx_pool, $0.tx.id)}
exit !{$0.tx.sender} | !{$0.tx} | {did insert(@tx_pool_index, pair(elem(get_inputs($0.tx)).address, $0.tx.id), $0.tx)} | {get_balance($0.tx.sender, ctor(addr_t)) < ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))} | {has(@tx_pool, $0.tx.id)}
exit !{$0.tx.sender} | !{$0.tx} | {did insert(@tx_pool_index, pair(elem(get_outputs($0.tx)).address, $0.tx.id), $0.tx)} | {get_balance($0.tx.sender, ctor(addr_t)) < ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))} | {has(@tx_pool, $0.tx.id)}
true !{get_balance($0.tx.sender, ctor(addr_t)) < ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))} | {$1}
true !{$0.is_skipped}
true {$0.tx}
true {$0.tx.sender}
false !{$0.tx.sender} | !{$0.tx} | !{$1} | {$0.is_skipped}
false !{$0.tx.sender} | !{$0.tx} | {$0.is_skipped} | {get_balance($0.tx.sender, ctor(addr_t)) < ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))}
at at(@tx_pool_fees, $0.tx.sender) = ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0)) ;; {$0.tx} ;; {$0.tx.sender} ;; !{get_balance($0.tx.sender, ctor(addr_t)) < ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))} | {$1}
at at(@tx_pool, $0.tx.id) = $0 ;; {$0.tx} ;; {$0.tx.sender} ;; !{get_balance($0.tx.sender, ctor(addr_t)) < ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))} | {$1}
at lock_guard(@mutex) ;; {$0.tx} ;; {$0.tx.sender} ;; !{get_balance($0.tx.sender, ctor(addr_t)) < ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))} | {$1} ;; !{has(@tx_pool, $0.tx.id)}
at insert(@tx_pool_index, pair(elem(get_inputs($0.tx)).address, $0.tx.id), $0.tx) ;; {$0.tx} ;; {$0.tx.sender} ;; !{get_balance($0.tx.sender, ctor(addr_t)) < ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))} | {$1} ;; !{has(@tx_pool, $0.tx.id)}
at insert(@tx_pool_index, pair(elem(get_outputs($0.tx)).address, $0.tx.id), $0.tx) ;; {$0.tx} ;; {$0.tx.sender} ;; !{get_balance($0.tx.sender, ctor(addr_t)) < ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))} | {$1} ;; !{has(@tx_pool, $0.tx.id)}
at insert(@tx_pool_index, pair(ctor(hash_t, (elem(get_outputs($0.tx)).address ++ elem(get_outputs($0.tx)).memo)), $0.tx.id), $0.tx) ;; {$0.tx} ;; {$0.tx.sender} ;; !{get_balance($0.tx.sender, ctor(addr_t)) < ($0.fee + ite({has(@tx_pool, $0.tx.id)}, (-at(@tx_pool, $0.tx.id).fee), 0) + ite({has(@tx_pool_fees, $0.tx.sender)}, at(@tx_pool_fees, $0.tx.sender), 0))} | {$1} ;; !{has(@tx_pool, $0.tx.id)} ;; {elem(get_outputs($0.tx)).memo}
fn mmx::Node::tx_pool_erase
each at(@tx_pool_fees, at(@tx_pool, $0).tx.sender) = (-at(@tx_pool, $0).fee + at(@tx_pool_fees, at(@tx_pool, $0).tx.sender)) ;; {has(@tx_pool, $0)} ;; {at(@tx_pool, $0).tx} ;; {at(@tx_pool, $0).tx.sender} ;; {has(@tx_pool_fees, at(@tx_pool, $0).tx.sender)}
each erase(@tx_pool_fees, find(@tx_pool_fees, at(@tx_pool, $0).tx.sender)) ;; {has(@tx_pool, $0)} ;; {at(@tx_pool, $0).tx} ;; {at(@tx_pool, $0).tx.sender} ;; {has(@tx_pool_fees, at(@tx_pool, $0).tx.sender)} ;; !{(-at(@tx_pool, $0).fee + at(@tx_pool_fees, at(@tx_pool, $0).tx.sender))}
each erase(@tx_pool_index, pair(elem(get_inputs(at(@tx_pool, $0).tx)).address, at(@tx_pool, $0).tx.id)) ;; {has(@tx_pool, $0)} ;; {at(@tx_pool, $0).tx}
each erase(@tx_pool_index, pair(elem(get_outputs(at(@tx_pool, $0).tx)).address, at(@tx_pool, $0).tx.id)) ;; {has(@tx_pool, $0)} ;; {at(@tx_pool, $0).tx}
each erase(@tx_pool_index, pair(ctor(hash_t, (elem(get_outputs(at(@tx_pool, $0).tx)).address ++ elem(get_outputs(at(@tx_pool, $0).tx)).memo)), at(@tx_pool, $0).tx.id)) ;; {has(@tx_pool, $0)} ;; {at(@tx_pool, $0).tx} ;; {elem(get_outputs(at(@tx_pool, $0).tx)).memo}
each erase(@tx_pool, find(@tx_pool, $0)) ;; {has(@tx_pool, $0)}
never break(get_inputs(at(@tx_pool, $0).tx))
never break(get_outputs(at(@tx_pool, $0).tx))
never throw …
exit !{has(@tx_pool, $0)} | {did erase(@tx_pool, find(@tx_pool, $0))}
exit !{at(@tx_pool, $0).tx} | !{has(@tx_pool, $0)} | {did erase(@tx_pool_index, pair(elem(get_inputs(at(@tx_pool, $0).tx)).address, at(@tx_pool, $0).tx.id))}
exit !{at(@tx_pool, $0).tx} | !{has(@tx_pool, $0)} | {did erase(@tx_pool_index, pair(elem(get_outputs(at(@tx_pool, $0).tx)).address, at(@tx_pool, $0).tx.id))}
exit !{at(@tx_pool, $0).tx} | !{elem(get_outputs(at(@tx_pool, $0).tx)).memo} | !{has(@tx_pool, $0)} | {did erase(@tx_pool_index, pair(ctor(hash_t, (elem(get_outputs(at(@tx_pool, $0).tx)).address ++ elem(get_outputs(at(@tx_pool, $0).tx)).memo)), at(@tx_pool, $0).tx.id))}
exit !{at(@tx_pool, $0).tx.sender} | !{at(@tx_pool, $0).tx} | !{has(@tx_pool, $0)} | !{has(@tx_pool_fees, at(@tx_pool, $0).tx.sender)} | {did at(@tx_pool_fees, at(@tx_pool, $0).tx.sender) = (-at(@tx_pool, $0).fee + at(@tx_pool_fees, at(@tx_pool, $0).tx.sender))}
at at(@tx_pool_fees, at(@tx_pool, $0).tx.sender) = (-at(@tx_pool, $0).fee + at(@tx_pool_fees, at(@tx_pool, $0).tx.sender)) ;; {has(@tx_pool, $0)} ;; {at(@tx_pool, $0).tx} ;; {at(@tx_pool, $0).tx.sender} ;; {has(@tx_pool_fees, at(@tx_pool, $0).tx.sender)}
at erase(@tx_pool_fees, find(@tx_pool_fees, at(@tx_pool, $0).tx.sender)) ;; {has(@tx_pool, $0)} ;; {at(@tx_pool, $0).tx} ;; {at(@tx_pool, $0).tx.sender} ;; {has(@tx_pool_fees, at(@tx_pool, $0).tx.sender)} ;; !{(-at(@tx_pool, $0).fee + at(@tx_pool_fees, at(@tx_pool, $0).tx.sender))}
at lock_guard(@mutex) ;; {has(@tx_pool, $0)} ;; {at(@tx_pool, $0).tx}
at erase(@tx_pool_index, pair(elem(get_inputs(at(@tx_pool, $0).tx)).address, at(@tx_pool, $0).tx.id)) ;; {has(@tx_pool, $0)} ;; {at(@tx_pool, $0).tx}
at erase(@tx_pool_index, pair(elem(get_outputs(at(@tx_pool, $0).tx)).address, at(@tx_pool, $0).tx.id)) ;; {has(@tx_pool, $0)} ;; {at(@tx_pool, $0).tx}
at erase(@tx_pool_index, pair(ctor(hash_t, (elem(get_outputs(at(@tx_pool, $0).tx)).address ++ elem(get_outputs(at(@tx_pool, $0).tx)).memo)), at(@tx_pool, $0).tx.id)) ;; {has(@tx_pool, $0)} ;; {at(@tx_pool, $0).tx} ;; {elem(get_outputs(at(@tx_pool, $0).tx)).memo}
at erase(@tx_pool, find(@tx_pool, $0)) ;; {has(@tx_pool, $0)}
fn mmx::Node::purge_tx_pool
each push_back(%vector<Node::tx_pool_t>, elem(@tx_pool).second)
each sort(begin(%vector<Node::tx_pool_t>), end(%vector<Node::tx_pool_t>), by(!{$cb0.tx.fee_ratio == $cb1.tx.fee_ratio} | {$cb0.luck < $cb1.luck} && {$cb0.luck < $cb1.luck} | {$cb1.tx.fee_ratio < $cb0.tx.fee_ratio} && {$cb0.tx.fee_ratio == $cb1.tx.fee_ratio} | {$cb1.tx.fee_ratio < $cb0.tx.fee_ratio}))
each insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender, pair(0, 0)) ;; {elem(%vector<Node::tx_pool_t>).tx.sender}
each insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first = get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) ;; {elem(%vector<Node::tx_pool_t>).tx.sender} ;; {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}
each insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second = (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second) ;; {elem(%vector<Node::tx_pool_t>).tx.sender}
each @min_pool_fee_ratio = 0 ;; {total(%vector<Node::tx_pool_t>, ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0)) < ((9 * @max_tx_pool * @params.max_block_size) / 10)}
never break(@tx_pool)
never break(%vector<Node::tx_pool_t>)
never throw …
exit {did push_back(%vector<Node::tx_pool_t>, elem(@tx_pool).second)}
exit {did sort(begin(%vector<Node::tx_pool_t>), end(%vector<Node::tx_pool_t>), by(!{$cb0.tx.fee_ratio == $cb1.tx.fee_ratio} | {$cb0.luck < $cb1.luck} && {$cb0.luck < $cb1.luck} | {$cb1.tx.fee_ratio < $cb0.tx.fee_ratio} && {$cb0.tx.fee_ratio == $cb1.tx.fee_ratio} | {$cb1.tx.fee_ratio < $cb0.tx.fee_ratio}))}
exit !{(@max_tx_pool * @params.max_block_size) < (fold(0, (ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>) + ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0))} | {did tx_pool_erase(elem(%vector<Node::tx_pool_t>).tx.id)}
exit !{elem(%vector<Node::tx_pool_t>).tx.sender} | {did insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second = (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)}
exit !{elem(%vector<Node::tx_pool_t>).tx.sender} | {did insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender, pair(0, 0))}
exit !{total(%vector<Node::tx_pool_t>, ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0)) < ((9 * @max_tx_pool * @params.max_block_size) / 10)} | {did @min_pool_fee_ratio = 0}
exit !{elem(%vector<Node::tx_pool_t>).tx.sender} | !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)} | {did insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first = get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t))}
exit {(@max_tx_pool * @params.max_block_size) < (fold(0, (ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>) + ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0))} | {did @min_pool_fee_ratio = elem(%vector<Node::tx_pool_t>).tx.fee_ratio} | {elem(%vector<Node::tx_pool_t>).tx.sender}
exit !{elem(%vector<Node::tx_pool_t>).tx.sender} | !{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} | !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)} | {did tx_pool_erase(elem(%vector<Node::tx_pool_t>).tx.id)}
exit !{elem(%vector<Node::tx_pool_t>).tx.sender} | !{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} | {did tx_pool_erase(elem(%vector<Node::tx_pool_t>).tx.id)} | {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}
exit !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)} | {(@max_tx_pool * @params.max_block_size) < (fold(0, (ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>) + ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0))} | {did @min_pool_fee_ratio = elem(%vector<Node::tx_pool_t>).tx.fee_ratio} | {get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)}
exit {(@max_tx_pool * @params.max_block_size) < (fold(0, (ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>) + ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0))} | {did @min_pool_fee_ratio = elem(%vector<Node::tx_pool_t>).tx.fee_ratio} | {get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} | {insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)}
exit {(@max_tx_pool * @params.max_block_size) < (fold(0, (ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>) + ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0))} | {did @min_pool_fee_ratio = elem(%vector<Node::tx_pool_t>).tx.fee_ratio} | {insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} | {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}
at reserve(%vector<Node::tx_pool_t>, size(@tx_pool))
at push_back(%vector<Node::tx_pool_t>, elem(@tx_pool).second)
at sort(begin(%vector<Node::tx_pool_t>), end(%vector<Node::tx_pool_t>), by(!{$cb0.tx.fee_ratio == $cb1.tx.fee_ratio} | {$cb0.luck < $cb1.luck} && {$cb0.luck < $cb1.luck} | {$cb1.tx.fee_ratio < $cb0.tx.fee_ratio} && {$cb0.tx.fee_ratio == $cb1.tx.fee_ratio} | {$cb1.tx.fee_ratio < $cb0.tx.fee_ratio}))
at insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender, pair(0, 0)) ;; {elem(%vector<Node::tx_pool_t>).tx.sender}
at insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first = get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) ;; {elem(%vector<Node::tx_pool_t>).tx.sender} ;; {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}
at insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second = (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second) ;; {elem(%vector<Node::tx_pool_t>).tx.sender}
at tx_pool_erase(elem(%vector<Node::tx_pool_t>).tx.id) ;; {(@max_tx_pool * @params.max_block_size) < (fold(0, (ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>) + ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0))} | {elem(%vector<Node::tx_pool_t>).tx.sender} ;; {(@max_tx_pool * @params.max_block_size) < (fold(0, (ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>) + ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0))} | {insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} | {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)} ;; !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)} | {(@max_tx_pool * @params.max_block_size) < (fold(0, (ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>) + ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0))} | {get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} ;; {(@max_tx_pool * @params.max_block_size) < (fold(0, (ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>) + ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0))} | {get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} | {insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)}
at @min_pool_fee_ratio = elem(%vector<Node::tx_pool_t>).tx.fee_ratio ;; !{(@max_tx_pool * @params.max_block_size) < (fold(0, (ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>) + ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0))} ;; !{elem(%vector<Node::tx_pool_t>).tx.sender} | !{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} | !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)} ;; !{elem(%vector<Node::tx_pool_t>).tx.sender} | !{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} | {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}
at @min_pool_fee_ratio = 0 ;; {total(%vector<Node::tx_pool_t>, ite((!{elem(%vector<Node::tx_pool_t>).tx.sender} || ((!{get_balance(elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || !{inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}) && (!{insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.first < (elem(%vector<Node::tx_pool_t>).fee + insert(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender).first.second.second)} || {inserted(%unordered_map<addr_t,pair<unsignedlong,unsignedlong>>, elem(%vector<Node::tx_pool_t>).tx.sender)}))), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0)) < ((9 * @max_tx_pool * @params.max_block_size) / 10)}
fn mmx::Node::validate_new
never break(%vector<Node::tx_pool_t>)
each insert(%unordered_set<hash_t>, elem(@tx_queue).second.id) ;; {get_peak()} ;; {@is_synced} ;; {elem(@tx_queue).second}
each %Node::tx_pool_t.tx = elem(@tx_queue).second ;; {get_peak()} ;; {@is_synced} ;; {elem(@tx_queue).second} ;; {inserted(%unordered_set<hash_t>, elem(@tx_queue).second.id)}
each %linear_congruential_engine<unsignedlong,16807,0,2147483647>() ;; {get_peak()} ;; {@is_synced} ;; {elem(@tx_queue).second} ;; {inserted(%unordered_set<hash_t>, elem(@tx_queue).second.id)}
each %Node::tx_pool_t.luck = u32(apply(%linear_congruential_engine<unsignedlong,16807,0,2147483647>)) ;; {get_peak()} ;; {@is_synced} ;; {elem(@tx_queue).second} ;; {inserted(%unordered_set<hash_t>, elem(@tx_queue).second.id)}
each push_back(%vector<Node::tx_pool_t>, %Node::tx_pool_t) ;; {get_peak()} ;; {@is_synced} ;; {elem(@tx_queue).second} ;; {inserted(%unordered_set<hash_t>, elem(@tx_queue).second.id)}
each elem(%vector<Node::tx_pool_t>).is_valid = true ;; {get_peak()} ;; {@is_synced}
each prepare_context(new_exec_context((get_peak().height + 1)), elem(%vector<Node::tx_pool_t>).tx) ;; {get_peak()} ;; {@is_synced}
each elem(%vector<Node::tx_pool_t>).is_valid = false ;; {get_peak()} ;; {@is_synced}
each add_task(@threads, lambda) ;; {get_peak()} ;; {@is_synced} ;; {elem(%vector<Node::tx_pool_t>).is_valid}
each elem(%vector<Node::tx_pool_t>).is_skipped = true ;; {get_peak()} ;; {@is_synced} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; {((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()}
each elem(%vector<Node::tx_pool_t>).is_valid = false ;; {get_peak()} ;; {@is_synced} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()}
each reset(clone(elem(%vector<Node::tx_pool_t>).tx), @params) ;; {get_peak()} ;; {@is_synced} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()} ;; {elem(%vector<Node::tx_pool_t>).tx.exec_result}
each elem(%vector<Node::tx_pool_t>).tx = clone(elem(%vector<Node::tx_pool_t>).tx) ;; {get_peak()} ;; {@is_synced} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()} ;; {elem(%vector<Node::tx_pool_t>).tx.exec_result}
each wait(new_exec_context((get_peak().height + 1)), ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx).id) ;; {get_peak()} ;; {@is_synced} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()}
each elem(%vector<Node::tx_pool_t>).cost = validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1))).total_cost ;; {get_peak()} ;; {@is_synced} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()} ;; {validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1)))}
each elem(%vector<Node::tx_pool_t>).fee = validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1))).total_fee ;; {get_peak()} ;; {@is_synced} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()} ;; {validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1)))}
each elem(%vector<Node::tx_pool_t>).is_valid = true ;; {get_peak()} ;; {@is_synced} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()} ;; {validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1)))}
each signal(new_exec_context((get_peak().height + 1)), ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx).id) ;; {get_peak()} ;; {@is_synced} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()}
each sync(@threads) ;; {get_peak()} ;; {@is_synced}
each tx_pool_update(elem(%vector<Node::tx_pool_t>), false) ;; {get_peak()} ;; {@is_synced} ;; !{elem(%vector<Node::tx_pool_t>).is_skipped} ;; {elem(%vector<Node::tx_pool_t>).is_valid}
each publish(elem(%vector<Node::tx_pool_t>).tx, @output_verified_transactions, 0) ;; {get_peak()} ;; {@is_synced} ;; !{elem(%vector<Node::tx_pool_t>).is_skipped} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; {tx_pool_update(elem(%vector<Node::tx_pool_t>), false)}
each erase(@tx_queue, elem(%vector<Node::tx_pool_t>).tx.content_hash) ;; {get_peak()} ;; {@is_synced} ;; !{elem(%vector<Node::tx_pool_t>).is_skipped}
never break(@tx_queue)
never throw …
exit !{@is_synced} | !{get_peak()} | {did sync(@threads)}
exit !{@is_synced} | !{elem(%vector<Node::tx_pool_t>).is_valid} | !{get_peak()} | {did add_task(@threads, lambda)}
exit !{@is_synced} | !{elem(@tx_queue).second} | !{get_peak()} | {did insert(%unordered_set<hash_t>, elem(@tx_queue).second.id)}
exit !{@is_synced} | !{get_peak()} | {did erase(@tx_queue, elem(%vector<Node::tx_pool_t>).tx.content_hash)} | {elem(%vector<Node::tx_pool_t>).is_skipped}
exit !{((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()} | !{@is_synced} | !{elem(%vector<Node::tx_pool_t>).is_valid} | !{get_peak()} | {did elem(%vector<Node::tx_pool_t>).is_skipped = true}
exit !{@is_synced} | !{elem(%vector<Node::tx_pool_t>).is_valid} | !{get_peak()} | {((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()} | {did elem(%vector<Node::tx_pool_t>).is_valid = false}
exit !{@is_synced} | !{elem(%vector<Node::tx_pool_t>).is_valid} | !{get_peak()} | {((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()} | {did signal(new_exec_context((get_peak().height + 1)), ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx).id)}
exit !{@is_synced} | !{elem(%vector<Node::tx_pool_t>).is_valid} | !{get_peak()} | {((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()} | {did wait(new_exec_context((get_peak().height + 1)), ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx).id)}
exit !{@is_synced} | !{elem(%vector<Node::tx_pool_t>).is_valid} | !{get_peak()} | {did tx_pool_update(elem(%vector<Node::tx_pool_t>), false)} | {elem(%vector<Node::tx_pool_t>).is_skipped}
exit !{@is_synced} | !{elem(@tx_queue).second} | !{get_peak()} | !{inserted(%unordered_set<hash_t>, elem(@tx_queue).second.id)} | {did %Node::tx_pool_t.luck = u32(apply(%linear_congruential_engine<unsignedlong,16807,0,2147483647>))}
exit !{@is_synced} | !{elem(@tx_queue).second} | !{get_peak()} | !{inserted(%unordered_set<hash_t>, elem(@tx_queue).second.id)} | {did %Node::tx_pool_t.tx = elem(@tx_queue).second}
exit !{@is_synced} | !{elem(@tx_queue).second} | !{get_peak()} | !{inserted(%unordered_set<hash_t>, elem(@tx_queue).second.id)} | {did %linear_congruential_engine<unsignedlong,16807,0,2147483647>()}
exit !{@is_synced} | !{elem(@tx_queue).second} | !{get_peak()} | !{inserted(%unordered_set<hash_t>, elem(@tx_queue).second.id)} | {did push_back(%vector<Node::tx_pool_t>, %Node::tx_pool_t)}
at reserve(%vector<Node::tx_pool_t>, @max_tx_queue) ;; {get_peak()} ;; {@is_synced}
at reserve(%unordered_set<hash_t>, @max_tx_queue) ;; {get_peak()} ;; {@is_synced}
at insert(%unordered_set<hash_t>, elem(@tx_queue).second.id) ;; {get_peak()} ;; {@is_synced} ;; {elem(@tx_queue).second}
at %Node::tx_pool_t.tx = elem(@tx_queue).second ;; {get_peak()} ;; {@is_synced} ;; {elem(@tx_queue).second} ;; {inserted(%unordered_set<hash_t>, elem(@tx_queue).second.id)}
at %linear_congruential_engine<unsignedlong,16807,0,2147483647>() ;; {get_peak()} ;; {@is_synced} ;; {elem(@tx_queue).second} ;; {inserted(%unordered_set<hash_t>, elem(@tx_queue).second.id)}
at %Node::tx_pool_t.luck = u32(apply(%linear_congruential_engine<unsignedlong,16807,0,2147483647>)) ;; {get_peak()} ;; {@is_synced} ;; {elem(@tx_queue).second} ;; {inserted(%unordered_set<hash_t>, elem(@tx_queue).second.id)}
at push_back(%vector<Node::tx_pool_t>, %Node::tx_pool_t) ;; {get_peak()} ;; {@is_synced} ;; {elem(@tx_queue).second} ;; {inserted(%unordered_set<hash_t>, elem(@tx_queue).second.id)}
at elem(%vector<Node::tx_pool_t>).is_valid = true ;; {get_peak()} ;; {@is_synced}
at prepare_context(new_exec_context((get_peak().height + 1)), elem(%vector<Node::tx_pool_t>).tx) ;; {get_peak()} ;; {@is_synced}
at elem(%vector<Node::tx_pool_t>).is_valid = false ;; {get_peak()} ;; {@is_synced}
at add_task(@threads, lambda) ;; {get_peak()} ;; {@is_synced} ;; {elem(%vector<Node::tx_pool_t>).is_valid}
at elem(%vector<Node::tx_pool_t>).is_skipped = true ;; {get_peak()} ;; {@is_synced} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; {((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()}
at reset(clone(elem(%vector<Node::tx_pool_t>).tx), @params) ;; {get_peak()} ;; {@is_synced} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()} ;; {elem(%vector<Node::tx_pool_t>).tx.exec_result}
at elem(%vector<Node::tx_pool_t>).tx = clone(elem(%vector<Node::tx_pool_t>).tx) ;; {get_peak()} ;; {@is_synced} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()} ;; {elem(%vector<Node::tx_pool_t>).tx.exec_result}
at wait(new_exec_context((get_peak().height + 1)), ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx).id) ;; {get_peak()} ;; {@is_synced} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()}
at elem(%vector<Node::tx_pool_t>).cost = validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1))).total_cost ;; {get_peak()} ;; {@is_synced} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()} ;; {validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1)))}
at elem(%vector<Node::tx_pool_t>).fee = validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1))).total_fee ;; {get_peak()} ;; {@is_synced} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()} ;; {validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1)))}
at signal(new_exec_context((get_peak().height + 1)), ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx).id) ;; {get_peak()} ;; {@is_synced} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{((@validate_interval_ms / 2) + get_time_ms()) < get_time_ms()}
at sync(@threads) ;; {get_peak()} ;; {@is_synced}
at tx_pool_update(elem(%vector<Node::tx_pool_t>), false) ;; {get_peak()} ;; {@is_synced} ;; !{elem(%vector<Node::tx_pool_t>).is_skipped} ;; {elem(%vector<Node::tx_pool_t>).is_valid}
at publish(elem(%vector<Node::tx_pool_t>).tx, @output_verified_transactions, 0) ;; {get_peak()} ;; {@is_synced} ;; !{elem(%vector<Node::tx_pool_t>).is_skipped} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; {tx_pool_update(elem(%vector<Node::tx_pool_t>), false)}
at erase(@tx_queue, elem(%vector<Node::tx_pool_t>).tx.content_hash) ;; {get_peak()} ;; {@is_synced} ;; !{elem(%vector<Node::tx_pool_t>).is_skipped}
fn mmx::Node::validate_for_block
never break(loop)
never break(@tx_pool)
never break(%vector<Node::tx_pool_t>)
each push_back(%vector<Node::tx_pool_t>, elem(@tx_pool).second)
each sort(begin(%vector<Node::tx_pool_t>), end(%vector<Node::tx_pool_t>), by({$cb1.tx.fee_ratio < $cb0.tx.fee_ratio}))
each push_back(%vector<Node::tx_pool_t>, elem(%vector<Node::tx_pool_t>)) ;; !{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + fold(0, (ite({@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~)}, 0, elem(%vector<Node::tx_pool_t>).cost) + ~), %vector<Node::tx_pool_t>))}
each elem(%vector<Node::tx_pool_t>).is_valid = true
each prepare_context(new_exec_context((get_peak().height + 1)), elem(%vector<Node::tx_pool_t>).tx)
each elem(%vector<Node::tx_pool_t>).is_valid = false
each add_task(@threads, lambda) ;; {elem(%vector<Node::tx_pool_t>).is_valid}
each elem(%vector<Node::tx_pool_t>).is_skipped = true ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; {$0 < get_time_ms()}
each elem(%vector<Node::tx_pool_t>).is_valid = false ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{$0 < get_time_ms()}
each reset(clone(elem(%vector<Node::tx_pool_t>).tx), @params) ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{$0 < get_time_ms()} ;; {elem(%vector<Node::tx_pool_t>).tx.exec_result}
each elem(%vector<Node::tx_pool_t>).tx = clone(elem(%vector<Node::tx_pool_t>).tx) ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{$0 < get_time_ms()} ;; {elem(%vector<Node::tx_pool_t>).tx.exec_result}
each wait(new_exec_context((get_peak().height + 1)), ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx).id) ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{$0 < get_time_ms()}
each update(clone(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx)), validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1))), @params) ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{$0 < get_time_ms()} ;; {validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1)))}
each elem(%vector<Node::tx_pool_t>).tx = clone(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx)) ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{$0 < get_time_ms()} ;; {validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1)))}
each elem(%vector<Node::tx_pool_t>).cost = validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1))).total_cost ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{$0 < get_time_ms()} ;; {validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1)))}
each elem(%vector<Node::tx_pool_t>).fee = validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1))).total_fee ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{$0 < get_time_ms()} ;; {validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1)))}
each elem(%vector<Node::tx_pool_t>).is_valid = true ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{$0 < get_time_ms()} ;; {validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1)))}
each signal(new_exec_context((get_peak().height + 1)), ite((!{‥} && !{‥}), clone(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx)), maybe(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx))).id) ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{$0 < get_time_ms()}
each sync(@threads)
each tx_pool_erase(elem(%vector<Node::tx_pool_t>).tx.id) ;; !{elem(%vector<Node::tx_pool_t>).is_skipped} ;; !{elem(%vector<Node::tx_pool_t>).is_valid}
each find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) ;; !{elem(%vector<Node::tx_pool_t>).is_skipped} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~?)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; !{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~?)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).cost, 0) + ~), %vector<Node::tx_pool_t>))}
each find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) = (-elem(%vector<Node::tx_pool_t>).fee + find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t))) ;; !{elem(%vector<Node::tx_pool_t>).is_skipped} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~?)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; !{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~?)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} ;; !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee}
each find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) ;; !{elem(%vector<Node::tx_pool_t>).is_skipped} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~?)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; !{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~?)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; !{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail}
each find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) = (-elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount + find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract)) ;; !{elem(%vector<Node::tx_pool_t>).is_skipped} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~?)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; !{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~?)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; !{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} ;; {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)} ;; !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount}
each apply(%balance_cache_t, %balance_cache_t) ;; !{elem(%vector<Node::tx_pool_t>).is_skipped} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~?)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; !{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~?)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} | {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} ;; !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} | {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} ;; {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} | {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)} ;; !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} | {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} ;; !{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} | {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} ;; {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} ;; !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} | {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} ;; {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} | {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)} ;; !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} | {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} ;; !{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} | !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} ;; !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} ;; !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} | {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)} ;; !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} | !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount}
each push_back(%vector<Node::tx_pool_t>, elem(%vector<Node::tx_pool_t>)) ;; !{elem(%vector<Node::tx_pool_t>).is_skipped} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~?)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; !{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~?)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} | {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} ;; !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} | {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} ;; {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} | {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)} ;; !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} | {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} ;; !{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} | {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} ;; {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} ;; !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} | {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} ;; {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} | {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)} ;; !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} | {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} ;; !{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} | !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} ;; !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} ;; !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} | {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)} ;; !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} | !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount}
each at(%vector<unsignedlong>, idx(u32(size(@params.min_fee_ratio)))) = ((((idx(u32(size(@params.min_fee_ratio))) + 1) * @params.max_block_size) / u32(size(@params.min_fee_ratio))) + -((@params.max_block_size * idx(u32(size(@params.min_fee_ratio)))) / u32(size(@params.min_fee_ratio)))) ;; {u32(size(@params.min_fee_ratio))}
each at(%vector<unsignedlong>, (fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1)) + -1)) = (-elem(%vector<Node::tx_pool_t>).tx.static_cost + at(%vector<unsignedlong>, (fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1)) + -1)) + at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1)))) ;; {u32(size(@params.min_fee_ratio))} ;; {at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))) < elem(%vector<Node::tx_pool_t>).tx.static_cost} ;; {fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))}
each at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))) = 0 ;; {u32(size(@params.min_fee_ratio))} ;; {at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))) < elem(%vector<Node::tx_pool_t>).tx.static_cost} ;; {fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))}
each at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))) = (-elem(%vector<Node::tx_pool_t>).tx.static_cost + at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1)))) ;; {u32(size(@params.min_fee_ratio))} ;; !{at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))) < elem(%vector<Node::tx_pool_t>).tx.static_cost}
each push_back(%vector<Node::tx_pool_t>, elem(%vector<Node::tx_pool_t>)) ;; {u32(size(@params.min_fee_ratio))}
never break(elem(%vector<Node::tx_pool_t>).tx.inputs)
at ctor:balance_cache_t(@balance_table)
at ctor:balance_cache_t(%balance_cache_t)
raise {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{$0 < get_time_ms()} ;; !{validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1)))}
value fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))
value fold(0, (ite({@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~)}, 0, elem(%vector<Node::tx_pool_t>).cost) + ~), %vector<Node::tx_pool_t>)
exit {did push_back(%vector<Node::tx_pool_t>, elem(@tx_pool).second)}
exit {did sort(begin(%vector<Node::tx_pool_t>), end(%vector<Node::tx_pool_t>), by({$cb1.tx.fee_ratio < $cb0.tx.fee_ratio}))}
exit {did sync(@threads)}
exit !{u32(size(@params.min_fee_ratio))} | {ret = %vector<Node::tx_pool_t>}
exit {ret = %vector<Node::tx_pool_t>} | {u32(size(@params.min_fee_ratio))}
exit !{elem(%vector<Node::tx_pool_t>).is_valid} | {did add_task(@threads, lambda)}
exit !{u32(size(@params.min_fee_ratio))} | {did at(%vector<unsignedlong>, idx(u32(size(@params.min_fee_ratio)))) = ((((idx(u32(size(@params.min_fee_ratio))) + 1) * @params.max_block_size) / u32(size(@params.min_fee_ratio))) + -((@params.max_block_size * idx(u32(size(@params.min_fee_ratio)))) / u32(size(@params.min_fee_ratio))))}
exit !{u32(size(@params.min_fee_ratio))} | {ret = %vector<Node::tx_pool_t>}
exit {@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + fold(0, (ite({@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~)}, 0, elem(%vector<Node::tx_pool_t>).cost) + ~), %vector<Node::tx_pool_t>))} | {did push_back(%vector<Node::tx_pool_t>, elem(%vector<Node::tx_pool_t>))}
exit {ret = %vector<Node::tx_pool_t>} | {u32(size(@params.min_fee_ratio))}
exit !{$0 < get_time_ms()} | !{elem(%vector<Node::tx_pool_t>).is_valid} | {did elem(%vector<Node::tx_pool_t>).is_skipped = true}
exit !{elem(%vector<Node::tx_pool_t>).tx.fee_ratio < (1024 * at(@params.min_fee_ratio, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))))} | !{fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))} | !{u32(size(@params.min_fee_ratio))}
exit !{elem(%vector<Node::tx_pool_t>).is_valid} | {$0 < get_time_ms()} | {did elem(%vector<Node::tx_pool_t>).is_valid = false}
exit !{elem(%vector<Node::tx_pool_t>).is_valid} | {$0 < get_time_ms()} | {did wait(new_exec_context((get_peak().height + 1)), ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx).id)}
exit !{fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))} | !{u32(size(@params.min_fee_ratio))} | {at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1)))}
exit !{fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))} | !{u32(size(@params.min_fee_ratio))} | {did push_back(%vector<Node::tx_pool_t>, elem(%vector<Node::tx_pool_t>))}
exit !{u32(size(@params.min_fee_ratio))} | {at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))) < elem(%vector<Node::tx_pool_t>).tx.static_cost} | {did at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))) = (-elem(%vector<Node::tx_pool_t>).tx.static_cost + at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))))}
exit !{u32(size(@params.min_fee_ratio))} | {at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))) < elem(%vector<Node::tx_pool_t>).tx.static_cost} | {did push_back(%vector<Node::tx_pool_t>, elem(%vector<Node::tx_pool_t>))}
exit {did tx_pool_erase(elem(%vector<Node::tx_pool_t>).tx.id)} | {elem(%vector<Node::tx_pool_t>).is_skipped} | {elem(%vector<Node::tx_pool_t>).is_valid}
exit !{at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))) < elem(%vector<Node::tx_pool_t>).tx.static_cost} | !{fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))} | !{u32(size(@params.min_fee_ratio))} | {did at(%vector<unsignedlong>, (fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1)) + -1)) = (-elem(%vector<Node::tx_pool_t>).tx.static_cost + at(%vector<unsignedlong>, (fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1)) + -1)) + at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))))}
exit !{at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))) < elem(%vector<Node::tx_pool_t>).tx.static_cost} | !{fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))} | !{u32(size(@params.min_fee_ratio))} | {did at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))) = 0}
exit !{elem(%vector<Node::tx_pool_t>).is_valid} | !{elem(%vector<Node::tx_pool_t>).tx.exec_result} | {$0 < get_time_ms()} | {did elem(%vector<Node::tx_pool_t>).tx = clone(elem(%vector<Node::tx_pool_t>).tx)}
exit !{elem(%vector<Node::tx_pool_t>).is_valid} | !{elem(%vector<Node::tx_pool_t>).tx.exec_result} | {$0 < get_time_ms()} | {did reset(clone(elem(%vector<Node::tx_pool_t>).tx), @params)}
exit !{elem(%vector<Node::tx_pool_t>).is_valid} | {@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~?)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).cost, 0) + ~), %vector<Node::tx_pool_t>))} | {@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~?)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>))} | {did find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t))} | {elem(%vector<Node::tx_pool_t>).is_skipped}
at reserve(%vector<Node::tx_pool_t>, size(@tx_pool))
at push_back(%vector<Node::tx_pool_t>, elem(@tx_pool).second)
at sort(begin(%vector<Node::tx_pool_t>), end(%vector<Node::tx_pool_t>), by({$cb1.tx.fee_ratio < $cb0.tx.fee_ratio}))
at push_back(%vector<Node::tx_pool_t>, elem(%vector<Node::tx_pool_t>))
at elem(%vector<Node::tx_pool_t>).is_valid = true
at prepare_context(new_exec_context((get_peak().height + 1)), elem(%vector<Node::tx_pool_t>).tx)
at elem(%vector<Node::tx_pool_t>).is_valid = false
at add_task(@threads, lambda) ;; {elem(%vector<Node::tx_pool_t>).is_valid}
at elem(%vector<Node::tx_pool_t>).is_skipped = true ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; {$0 < get_time_ms()}
at reset(clone(elem(%vector<Node::tx_pool_t>).tx), @params) ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{$0 < get_time_ms()} ;; {elem(%vector<Node::tx_pool_t>).tx.exec_result}
at elem(%vector<Node::tx_pool_t>).tx = clone(elem(%vector<Node::tx_pool_t>).tx) ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{$0 < get_time_ms()} ;; {elem(%vector<Node::tx_pool_t>).tx.exec_result}
at wait(new_exec_context((get_peak().height + 1)), ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx).id) ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{$0 < get_time_ms()}
at update(clone(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx)), validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1))), @params) ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{$0 < get_time_ms()} ;; {validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1)))}
at elem(%vector<Node::tx_pool_t>).tx = clone(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx)) ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{$0 < get_time_ms()} ;; {validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1)))}
at elem(%vector<Node::tx_pool_t>).cost = validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1))).total_cost ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{$0 < get_time_ms()} ;; {validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1)))}
at elem(%vector<Node::tx_pool_t>).fee = validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1))).total_fee ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{$0 < get_time_ms()} ;; {validate(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx), new_exec_context((get_peak().height + 1)))}
at signal(new_exec_context((get_peak().height + 1)), ite((!{…} && !{…}), clone(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx)), maybe(ite({elem(%vector<Node::tx_pool_t>).tx.exec_result}, clone(elem(%vector<Node::tx_pool_t>).tx), elem(%vector<Node::tx_pool_t>).tx))).id) ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{$0 < get_time_ms()}
at sync(@threads)
at tx_pool_erase(elem(%vector<Node::tx_pool_t>).tx.id) ;; !{elem(%vector<Node::tx_pool_t>).is_skipped} ;; !{elem(%vector<Node::tx_pool_t>).is_valid}
at find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) ;; !{elem(%vector<Node::tx_pool_t>).is_skipped} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~?)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; !{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~?)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).cost, 0) + ~), %vector<Node::tx_pool_t>))}
at find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) = (-elem(%vector<Node::tx_pool_t>).fee + find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t))) ;; !{elem(%vector<Node::tx_pool_t>).is_skipped} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~?)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; !{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~?)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} ;; !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee}
at find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) ;; !{elem(%vector<Node::tx_pool_t>).is_skipped} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~?)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; !{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~?)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; !{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail}
at find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) = (-elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount + find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract)) ;; !{elem(%vector<Node::tx_pool_t>).is_skipped} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~?)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; !{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~?)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; !{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} ;; {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)} ;; !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount}
at apply(%balance_cache_t, %balance_cache_t) ;; !{elem(%vector<Node::tx_pool_t>).is_skipped} ;; {elem(%vector<Node::tx_pool_t>).is_valid} ;; !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~?)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).tx.static_cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; !{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + fold(0, (ite((!{@params.max_block_cost < (elem(%vector<Node::tx_pool_t>).cost + ~)} && !{@params.max_block_size < (elem(%vector<Node::tx_pool_t>).tx.static_cost + ~?)} && !{elem(%vector<Node::tx_pool_t>).is_skipped} && ((!{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} && {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)}) || (!{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} && {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} && {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)})) && {elem(%vector<Node::tx_pool_t>).is_valid}), elem(%vector<Node::tx_pool_t>).cost, 0) + ~), %vector<Node::tx_pool_t>))} ;; {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} | {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} ;; !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} | {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} ;; {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} | {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)} ;; !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} | {elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} ;; !{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} | {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} ;; {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} ;; !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} | {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} ;; {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} | {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)} ;; !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount} | {has(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender)} ;; !{elem(%vector<Node::tx_pool_t>).tx.exec_result.did_fail} | !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} ;; !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} ;; !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} | {has(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address)} ;; !{find(%balance_cache_t, elem(%vector<Node::tx_pool_t>).tx.sender, ctor(addr_t)) < elem(%vector<Node::tx_pool_t>).fee} | !{find(%balance_cache_t, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).address, elem(elem(%vector<Node::tx_pool_t>).tx.inputs).contract) < elem(elem(%vector<Node::tx_pool_t>).tx.inputs).amount}
at at(%vector<unsignedlong>, idx(u32(size(@params.min_fee_ratio)))) = ((((idx(u32(size(@params.min_fee_ratio))) + 1) * @params.max_block_size) / u32(size(@params.min_fee_ratio))) + -((@params.max_block_size * idx(u32(size(@params.min_fee_ratio)))) / u32(size(@params.min_fee_ratio)))) ;; {u32(size(@params.min_fee_ratio))}
at at(%vector<unsignedlong>, (fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1)) + -1)) = (-elem(%vector<Node::tx_pool_t>).tx.static_cost + at(%vector<unsignedlong>, (fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1)) + -1)) + at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1)))) ;; {u32(size(@params.min_fee_ratio))} ;; {at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))) < elem(%vector<Node::tx_pool_t>).tx.static_cost} ;; {fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))}
at at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))) = 0 ;; {u32(size(@params.min_fee_ratio))} ;; {at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))) < elem(%vector<Node::tx_pool_t>).tx.static_cost} ;; {fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))}
at at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))) = (-elem(%vector<Node::tx_pool_t>).tx.static_cost + at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1)))) ;; {u32(size(@params.min_fee_ratio))} ;; !{at(%vector<unsignedlong>, fold(fold((u32(size(@params.min_fee_ratio)) + -1), fold(~, (~? + -1)), %vector<Node::tx_pool_t>), (~ + -1))) < elem(%vector<Node::tx_pool_t>).tx.static_cost}
