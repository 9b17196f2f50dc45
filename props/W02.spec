tus src/Wallet.cpp
fn mmx::ECDSA_Wallet::update_cache
each @height = $2
each clear(@balance_map)
each insert(@balance_map, begin($0), end($0))
each push_back(%vector<hash_t>, elem(@pending_tx).first) ;; {elem(@pending_tx).second < $2}
each erase(@pending_tx, elem(%vector<hash_t>))
each erase(@pending_map, elem(%vector<hash_t>))
each erase(@pending_tx, elem($1))
each erase(@pending_map, elem($1))
each clamped_sub_assign(at(@balance_map, elem(@reserved_map).first), elem(@reserved_map).second)
each clamped_sub_assign(at(@balance_map, elem(elem(@pending_map).second).first), elem(elem(@pending_map).second).second)
never break(@pending_tx)
never break(%vector<hash_t>)
never break($1)
never break(@reserved_map)
never break(elem(@pending_map).second)
never break(@pending_map)
never throw …
exit {did @height = $2}
exit {did clamped_sub_assign(at(@balance_map, elem(@reserved_map).first), elem(@reserved_map).second)}
exit {did clamped_sub_assign(at(@balance_map, elem(elem(@pending_map).second).first), elem(elem(@pending_map).second).second)}
exit {did clear(@balance_map)}
exit {did erase(@pending_map, elem($1))}
exit {did erase(@pending_map, elem(%vector<hash_t>))}
exit {did erase(@pending_tx, elem($1))}
exit {did erase(@pending_tx, elem(%vector<hash_t>))}
exit {did insert(@balance_map, begin($0), end($0))}
exit !{elem(@pending_tx).second < $2} | {did push_back(%vector<hash_t>, elem(@pending_tx).first)}
at @height = $2
at clear(@balance_map)
at insert(@balance_map, begin($0), end($0))
at push_back(%vector<hash_t>, elem(@pending_tx).first) ;; {elem(@pending_tx).second < $2}
at erase(@pending_tx, elem(%vector<hash_t>))
at erase(@pending_map, elem(%vector<hash_t>))
at erase(@pending_tx, elem($1))
at erase(@pending_map, elem($1))
at clamped_sub_assign(at(@balance_map, elem(@reserved_map).first), elem(@reserved_map).second)
at clamped_sub_assign(at(@balance_map, elem(elem(@pending_map).second).first), elem(elem(@pending_map).second).second)
fn mmx::ECDSA_Wallet::update_from
each clamped_sub_assign(at(@balance_map, pair($0.sender, ctor(addr_t))), cost_to_fee($0.static_cost, $0.fee_ratio)) ;; !{has(@pending_tx, $0.id)} ;; {$0.sender}
each at(at(@pending_map, $0.id), pair($0.sender, ctor(addr_t))) = (at(at(@pending_map, $0.id), pair($0.sender, ctor(addr_t))) + cost_to_fee($0.static_cost, $0.fee_ratio)) ;; !{has(@pending_tx, $0.id)} ;; {$0.sender}
each clamped_sub_assign(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)), elem($0.inputs).amount) ;; !{has(@pending_tx, $0.id)} ;; {-1 < find_address(elem($0.inputs).address)}
each at(at(@pending_map, $0.id), pair(elem($0.inputs).address, elem($0.inputs).contract)) = (at(at(@pending_map, $0.id), pair(elem($0.inputs).address, elem($0.inputs).contract)) + elem($0.inputs).amount) ;; !{has(@pending_tx, $0.id)} ;; {-1 < find_address(elem($0.inputs).address)}
each at(@pending_tx, $0.id) = $0.expires ;; !{has(@pending_tx, $0.id)}
never break($0.inputs)
never throw …
exit {did at(@pending_tx, $0.id) = $0.expires} | {has(@pending_tx, $0.id)}
exit !{$0.sender} | {did at(at(@pending_map, $0.id), pair($0.sender, ctor(addr_t))) = (at(at(@pending_map, $0.id), pair($0.sender, ctor(addr_t))) + cost_to_fee($0.static_cost, $0.fee_ratio))} | {has(@pending_tx, $0.id)}
exit !{$0.sender} | {did clamped_sub_assign(at(@balance_map, pair($0.sender, ctor(addr_t))), cost_to_fee($0.static_cost, $0.fee_ratio))} | {has(@pending_tx, $0.id)}
exit !{-1 < find_address(elem($0.inputs).address)} | {did at(at(@pending_map, $0.id), pair(elem($0.inputs).address, elem($0.inputs).contract)) = (at(at(@pending_map, $0.id), pair(elem($0.inputs).address, elem($0.inputs).contract)) + elem($0.inputs).amount)} | {has(@pending_tx, $0.id)}
exit !{-1 < find_address(elem($0.inputs).address)} | {did clamped_sub_assign(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)), elem($0.inputs).amount)} | {has(@pending_tx, $0.id)}
at clamped_sub_assign(at(@balance_map, pair($0.sender, ctor(addr_t))), cost_to_fee($0.static_cost, $0.fee_ratio)) ;; !{has(@pending_tx, $0.id)} ;; {$0.sender}
at at(at(@pending_map, $0.id), pair($0.sender, ctor(addr_t))) = (at(at(@pending_map, $0.id), pair($0.sender, ctor(addr_t))) + cost_to_fee($0.static_cost, $0.fee_ratio)) ;; !{has(@pending_tx, $0.id)} ;; {$0.sender}
at clamped_sub_assign(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)), elem($0.inputs).amount) ;; !{has(@pending_tx, $0.id)} ;; {-1 < find_address(elem($0.inputs).address)}
at at(at(@pending_map, $0.id), pair(elem($0.inputs).address, elem($0.inputs).contract)) = (at(at(@pending_map, $0.id), pair(elem($0.inputs).address, elem($0.inputs).contract)) + elem($0.inputs).amount) ;; !{has(@pending_tx, $0.id)} ;; {-1 < find_address(elem($0.inputs).address)}
at at(@pending_tx, $0.id) = $0.expires ;; !{has(@pending_tx, $0.id)}
fn mmx::ECDSA_Wallet::gather_inputs
never find_address(elem($0.inputs).address) ;; {fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs)} ;; {$3 == elem($0.inputs).contract}
each push_back(%vector<pair<addr_t,uint128_t>>, elem(@balance_map).first.first, (elem(@balance_map).second + ite({has($1, elem(@balance_map).first)}, (-at($1, elem(@balance_map).first)), 0))) ;; {$3 == elem(@balance_map).first.second} ;; {(elem(@balance_map).second + ite({has($1, elem(@balance_map).first)}, (-at($1, elem(@balance_map).first)), 0))}
each sort(begin(%vector<pair<addr_t,uint128_t>>), end(%vector<pair<addr_t,uint128_t>>), by({$cb1.second < $cb0.second}))
never break(@balance_map)
raise {fold(fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs), (-ite({~ < elem(%vector<pair<addr_t,uint128_t>>).second}, ~, elem(%vector<pair<addr_t,uint128_t>>).second) + ~), %vector<pair<addr_t,uint128_t>>)}
exit !{fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs)} | !{fold(fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs), (-ite({~ < elem(%vector<pair<addr_t,uint128_t>>).second}, ~, elem(%vector<pair<addr_t,uint128_t>>).second) + ~), %vector<pair<addr_t,uint128_t>>)}
exit !{fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs)} | {did sort(begin(%vector<pair<addr_t,uint128_t>>), end(%vector<pair<addr_t,uint128_t>>), by({$cb1.second < $cb0.second}))}
exit !{fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs)} | {did break(%vector<pair<addr_t,uint128_t>>)} | {fold(fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs), (-ite({~ < elem(%vector<pair<addr_t,uint128_t>>).second}, ~, elem(%vector<pair<addr_t,uint128_t>>).second) + ~), %vector<pair<addr_t,uint128_t>>)}
exit !{$3 == elem(@balance_map).first.second} | !{(elem(@balance_map).second + ite({has($1, elem(@balance_map).first)}, (-at($1, elem(@balance_map).first)), 0))} | !{fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs)} | {did push_back(%vector<pair<addr_t,uint128_t>>, elem(@balance_map).first.first, (elem(@balance_map).second + ite({has($1, elem(@balance_map).first)}, (-at($1, elem(@balance_map).first)), 0)))}
at elem($0.inputs).amount = (elem($0.inputs).amount + ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs)}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs))) ;; {fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs)} ;; {$3 == elem($0.inputs).contract} ;; {-1 < find_address(elem($0.inputs).address)} ;; {has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} ;; {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs)} | {fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs)} ;; !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs)} | {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))} ;; {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))} | {fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs)}
at at($1, pair(elem($0.inputs).address, elem($0.inputs).contract)) = (at($1, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs)}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs))) ;; {fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs)} ;; {$3 == elem($0.inputs).contract} ;; {-1 < find_address(elem($0.inputs).address)} ;; {has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} ;; {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs)} | {fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs)} ;; !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs)} | {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))} ;; {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))} | {fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs)}
at push_back(%vector<pair<addr_t,uint128_t>>, elem(@balance_map).first.first, (elem(@balance_map).second + ite({has($1, elem(@balance_map).first)}, (-at($1, elem(@balance_map).first)), 0))) ;; {$3 == elem(@balance_map).first.second} ;; {(elem(@balance_map).second + ite({has($1, elem(@balance_map).first)}, (-at($1, elem(@balance_map).first)), 0))}
at sort(begin(%vector<pair<addr_t,uint128_t>>), end(%vector<pair<addr_t,uint128_t>>), by({$cb1.second < $cb0.second}))
never break(%vector<pair<addr_t,uint128_t>>) ;; !{fold(fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs), (-ite({~ < elem(%vector<pair<addr_t,uint128_t>>).second}, ~, elem(%vector<pair<addr_t,uint128_t>>).second) + ~), %vector<pair<addr_t,uint128_t>>)}
at %txin_t.address = elem(%vector<pair<addr_t,uint128_t>>).first ;; {fold(fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs), (-ite({~ < elem(%vector<pair<addr_t,uint128_t>>).second}, ~, elem(%vector<pair<addr_t,uint128_t>>).second) + ~), %vector<pair<addr_t,uint128_t>>)}
at %txin_t.contract = $3 ;; {fold(fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs), (-ite({~ < elem(%vector<pair<addr_t,uint128_t>>).second}, ~, elem(%vector<pair<addr_t,uint128_t>>).second) + ~), %vector<pair<addr_t,uint128_t>>)}
at %txin_t.memo = $4.memo ;; {fold(fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs), (-ite({~ < elem(%vector<pair<addr_t,uint128_t>>).second}, ~, elem(%vector<pair<addr_t,uint128_t>>).second) + ~), %vector<pair<addr_t,uint128_t>>)}
at %txin_t.amount = fold(fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs), (-ite({~ < elem(%vector<pair<addr_t,uint128_t>>).second}, ~, elem(%vector<pair<addr_t,uint128_t>>).second) + ~), %vector<pair<addr_t,uint128_t>>) ;; {fold(fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs), (-ite({~ < elem(%vector<pair<addr_t,uint128_t>>).second}, ~, elem(%vector<pair<addr_t,uint128_t>>).second) + ~), %vector<pair<addr_t,uint128_t>>)} ;; {fold(fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs), (-ite({~ < elem(%vector<pair<addr_t,uint128_t>>).second}, ~, elem(%vector<pair<addr_t,uint128_t>>).second) + ~), %vector<pair<addr_t,uint128_t>>) < elem(%vector<pair<addr_t,uint128_t>>).second}
at %txin_t.amount = elem(%vector<pair<addr_t,uint128_t>>).second ;; {fold(fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs), (-ite({~ < elem(%vector<pair<addr_t,uint128_t>>).second}, ~, elem(%vector<pair<addr_t,uint128_t>>).second) + ~), %vector<pair<addr_t,uint128_t>>)} ;; !{fold(fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs), (-ite({~ < elem(%vector<pair<addr_t,uint128_t>>).second}, ~, elem(%vector<pair<addr_t,uint128_t>>).second) + ~), %vector<pair<addr_t,uint128_t>>) < elem(%vector<pair<addr_t,uint128_t>>).second}
at at($1, pair(elem(%vector<pair<addr_t,uint128_t>>).first, $3)) = (at($1, pair(elem(%vector<pair<addr_t,uint128_t>>).first, $3)) + ite({fold(fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs), (-ite({~ < elem(%vector<pair<addr_t,uint128_t>>).second}, ~, elem(%vector<pair<addr_t,uint128_t>>).second) + ~), %vector<pair<addr_t,uint128_t>>) < elem(%vector<pair<addr_t,uint128_t>>).second}, fold(fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs), (-ite({~ < elem(%vector<pair<addr_t,uint128_t>>).second}, ~, elem(%vector<pair<addr_t,uint128_t>>).second) + ~), %vector<pair<addr_t,uint128_t>>), elem(%vector<pair<addr_t,uint128_t>>).second)) ;; {fold(fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs), (-ite({~ < elem(%vector<pair<addr_t,uint128_t>>).second}, ~, elem(%vector<pair<addr_t,uint128_t>>).second) + ~), %vector<pair<addr_t,uint128_t>>)}
at push_back($0.inputs, %txin_t) ;; {fold(fold($2, (ite((!{$3 == elem($0.inputs).contract} || !{-1 < find_address(elem($0.inputs).address)} || !{has(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract))} || ((!{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~} || !{(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0))}) && (!{~} || {(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}))), 0, (-ite({(at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)) < ~}, (at(@balance_map, pair(elem($0.inputs).address, elem($0.inputs).contract)) + ite({has($1, pair(elem($0.inputs).address, elem($0.inputs).contract))}, (-at($1, pair(elem($0.inputs).address, elem($0.inputs).contract))), 0)), ~))) + ~), $0.inputs), (-ite({~ < elem(%vector<pair<addr_t,uint128_t>>).second}, ~, elem(%vector<pair<addr_t,uint128_t>>).second) + ~), %vector<pair<addr_t,uint128_t>>)}
fn mmx::ECDSA_Wallet::complete
never break($0.inputs)
never break(@balance_map)
each unlock($1.passphrase) ;; {is_locked()} ;; {$1.passphrase}
each $0.version = get_transaction_version(@params, (@height + 1))
each $0.note = $1.note ;; {$1.note}
each $0.expires = min($0.expires, $1.expire_at) ;; {$1.expire_at}
each $0.expires = min($0.expires, ($1.expire_delta + @height)) ;; !{$1.expire_at} ;; {$1.expire_delta}
each $0.expires = min($0.expires, (@default_expire + @height)) ;; !{$1.expire_at} ;; !{$1.expire_delta}
each $0.fee_ratio = max($0.fee_ratio, $1.fee_ratio)
each at(%map<addr_t,uint128_t>, elem($0.outputs).contract) = (at(%map<addr_t,uint128_t>, elem($0.outputs).contract) + elem($0.outputs).amount)
each at(%map<addr_t,uint128_t>, elem($0.execute).currency) = (at(%map<addr_t,uint128_t>, elem($0.execute).currency) + elem($0.execute).amount) ;; {is<operation::Deposit>(elem($0.execute))} ;; {elem($0.execute)}
each at(%map<addr_t,uint128_t>, elem($0.inputs).contract) = (-elem($0.inputs).amount + at(%map<addr_t,uint128_t>, elem($0.inputs).contract)) ;; {elem($0.inputs).amount < at(%map<addr_t,uint128_t>, elem($0.inputs).contract)}
each at(%map<addr_t,uint128_t>, elem($0.inputs).contract) = 0 ;; !{elem($0.inputs).amount < at(%map<addr_t,uint128_t>, elem($0.inputs).contract)}
each at(%map<addr_t,uint128_t>, elem($2).first) = (at(%map<addr_t,uint128_t>, elem($2).first) + elem($2).second)
each gather_inputs($0, %map<pair<addr_t,addr_t>,uint128_t>, elem(%map<addr_t,uint128_t>).second, elem(%map<addr_t,uint128_t>).first, $1) ;; {elem(%map<addr_t,uint128_t>).second}
each $0.max_fee_amount = u32(cost_to_fee(($1.gas_limit + calc_cost($0, @params)), $0.fee_ratio))
each $0.sender = $1.sender ;; !{$0.sender} ;; {$1.sender}
each $0.sender = fold(ctor(addr_t), ite((!{ctor(addr_t) == elem(@balance_map).first.second} || !{~? < (elem(@balance_map).second + ite({has(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)}, (-at(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)), 0))}), ~, elem(@balance_map).first.first), @balance_map) ;; !{$0.sender} ;; !{$1.sender} ;; !{fold(0, ite((!{ctor(addr_t) == elem(@balance_map).first.second} || !{~ < (elem(@balance_map).second + ite({has(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)}, (-at(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)), 0))}), ~, (elem(@balance_map).second + ite({has(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)}, (-at(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)), 0))), @balance_map) < cost_to_fee(calc_cost($0, @params), $0.fee_ratio)}
each sign_off($0, $1)
never break($0.outputs)
never break($0.execute)
never break($2)
never break(%map<addr_t,uint128_t>)
raise {is_locked()} ;; !{$1.passphrase}
raise !{$0.sender} ;; !{$1.sender} ;; {fold(0, ite((!{ctor(addr_t) == elem(@balance_map).first.second} || !{~ < (elem(@balance_map).second + ite({has(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)}, (-at(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)), 0))}), ~, (elem(@balance_map).second + ite({has(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)}, (-at(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)), 0))), @balance_map) < cost_to_fee(calc_cost($0, @params), $0.fee_ratio)}
value fold(ctor(addr_t), ite((!{ctor(addr_t) == elem(@balance_map).first.second} || !{~? < (elem(@balance_map).second + ite({has(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)}, (-at(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)), 0))}), ~, elem(@balance_map).first.first), @balance_map)
value fold(0, ite((!{ctor(addr_t) == elem(@balance_map).first.second} || !{~ < (elem(@balance_map).second + ite({has(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)}, (-at(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)), 0))}), ~, (elem(@balance_map).second + ite({has(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)}, (-at(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)), 0))), @balance_map)
rethrow !{is_locked()} | {did lock()}
exit {did $0.fee_ratio = max($0.fee_ratio, $1.fee_ratio)}
exit {did $0.max_fee_amount = u32(cost_to_fee(($1.gas_limit + calc_cost($0, @params)), $0.fee_ratio))}
exit {did $0.version = get_transaction_version(@params, (@height + 1))}
exit {did at(%map<addr_t,uint128_t>, elem($0.outputs).contract) = (at(%map<addr_t,uint128_t>, elem($0.outputs).contract) + elem($0.outputs).amount)}
exit {did at(%map<addr_t,uint128_t>, elem($2).first) = (at(%map<addr_t,uint128_t>, elem($2).first) + elem($2).second)}
exit {did sign_off($0, $1)}
exit !{$1.expire_at} | {did $0.expires = min($0.expires, $1.expire_at)}
exit !{$1.note} | {did $0.note = $1.note}
exit !{elem($0.inputs).amount < at(%map<addr_t,uint128_t>, elem($0.inputs).contract)} | {did at(%map<addr_t,uint128_t>, elem($0.inputs).contract) = (-elem($0.inputs).amount + at(%map<addr_t,uint128_t>, elem($0.inputs).contract))}
exit !{elem(%map<addr_t,uint128_t>).second} | {did gather_inputs($0, %map<pair<addr_t,addr_t>,uint128_t>, elem(%map<addr_t,uint128_t>).second, elem(%map<addr_t,uint128_t>).first, $1)}
exit !{is_locked()} | {$1.passphrase}
exit !{is_locked()} | {did lock()}
exit !{is_locked()} | {did unlock($1.passphrase)}
exit {did at(%map<addr_t,uint128_t>, elem($0.inputs).contract) = 0} | {elem($0.inputs).amount < at(%map<addr_t,uint128_t>, elem($0.inputs).contract)}
exit !{$1.expire_delta} | {$1.expire_at} | {did $0.expires = min($0.expires, ($1.expire_delta + @height))}
exit !{$1.sender} | {$0.sender} | {did $0.sender = $1.sender}
exit !{elem($0.execute)} | !{is<operation::Deposit>(elem($0.execute))} | {did at(%map<addr_t,uint128_t>, elem($0.execute).currency) = (at(%map<addr_t,uint128_t>, elem($0.execute).currency) + elem($0.execute).amount)}
exit !{fold(0, ite((!{ctor(addr_t) == elem(@balance_map).first.second} || !{~ < (elem(@balance_map).second + ite({has(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)}, (-at(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)), 0))}), ~, (elem(@balance_map).second + ite({has(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)}, (-at(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)), 0))), @balance_map) < cost_to_fee(calc_cost($0, @params), $0.fee_ratio)} | {$0.sender} | {$1.sender}
exit {$0.sender} | {$1.sender} | {did $0.sender = fold(ctor(addr_t), ite((!{ctor(addr_t) == elem(@balance_map).first.second} || !{~? < (elem(@balance_map).second + ite({has(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)}, (-at(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)), 0))}), ~, elem(@balance_map).first.first), @balance_map)}
exit {$1.expire_at} | {$1.expire_delta} | {did $0.expires = min($0.expires, (@default_expire + @height))}
at unlock($1.passphrase) ;; {is_locked()} ;; {$1.passphrase}
at $0.version = get_transaction_version(@params, (@height + 1))
at $0.note = $1.note ;; {$1.note}
at $0.expires = min($0.expires, $1.expire_at) ;; {$1.expire_at}
at $0.expires = min($0.expires, ($1.expire_delta + @height)) ;; !{$1.expire_at} ;; {$1.expire_delta}
at $0.expires = min($0.expires, (@default_expire + @height)) ;; !{$1.expire_at} ;; !{$1.expire_delta}
at $0.fee_ratio = max($0.fee_ratio, $1.fee_ratio)
at at(%map<addr_t,uint128_t>, elem($0.outputs).contract) = (at(%map<addr_t,uint128_t>, elem($0.outputs).contract) + elem($0.outputs).amount)
at at(%map<addr_t,uint128_t>, elem($0.execute).currency) = (at(%map<addr_t,uint128_t>, elem($0.execute).currency) + elem($0.execute).amount) ;; {is<operation::Deposit>(elem($0.execute))} ;; {elem($0.execute)}
at at(%map<addr_t,uint128_t>, elem($0.inputs).contract) = (-elem($0.inputs).amount + at(%map<addr_t,uint128_t>, elem($0.inputs).contract)) ;; {elem($0.inputs).amount < at(%map<addr_t,uint128_t>, elem($0.inputs).contract)}
at at(%map<addr_t,uint128_t>, elem($0.inputs).contract) = 0 ;; !{elem($0.inputs).amount < at(%map<addr_t,uint128_t>, elem($0.inputs).contract)}
at at(%map<addr_t,uint128_t>, elem($2).first) = (at(%map<addr_t,uint128_t>, elem($2).first) + elem($2).second)
at gather_inputs($0, %map<pair<addr_t,addr_t>,uint128_t>, elem(%map<addr_t,uint128_t>).second, elem(%map<addr_t,uint128_t>).first, $1) ;; {elem(%map<addr_t,uint128_t>).second}
at $0.max_fee_amount = u32(cost_to_fee(($1.gas_limit + calc_cost($0, @params)), $0.fee_ratio))
at $0.sender = $1.sender ;; !{$0.sender} ;; {$1.sender}
at $0.sender = fold(ctor(addr_t), ite((!{ctor(addr_t) == elem(@balance_map).first.second} || !{~? < (elem(@balance_map).second + ite({has(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)}, (-at(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)), 0))}), ~, elem(@balance_map).first.first), @balance_map) ;; !{$0.sender} ;; !{$1.sender} ;; !{fold(0, ite((!{ctor(addr_t) == elem(@balance_map).first.second} || !{~ < (elem(@balance_map).second + ite({has(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)}, (-at(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)), 0))}), ~, (elem(@balance_map).second + ite({has(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)}, (-at(%map<pair<addr_t,addr_t>,uint128_t>, elem(@balance_map).first)), 0))), @balance_map) < cost_to_fee(calc_cost($0, @params), $0.fee_ratio)}
at sign_off($0, $1)
at lock() ;; {is_locked()} ;; {$1.passphrase}
fn mmx::ECDSA_Wallet::reset_cache
each @last_update = 0
each clear(@balance_map)
each clear(@reserved_map)
each clear(@external_balance_map)
each clear(@pending_tx)
each clear(@pending_map)
never throw …
exit {did @last_update = 0}
exit {did clear(@balance_map)}
exit {did clear(@external_balance_map)}
exit {did clear(@pending_map)}
exit {did clear(@pending_tx)}
exit {did clear(@reserved_map)}
at @last_update = 0
at clear(@balance_map)
at clear(@reserved_map)
at clear(@external_balance_map)
at clear(@pending_tx)
at clear(@pending_map)
fn mmx::Wallet::send
each update_cache($0)
each %shared_ptr<Transaction>.note = tx_note_e::TRANSFER ;; {$1} ;; !{$2 == ctor(addr_t)}
each add_output(%shared_ptr<Transaction>, $3, $2, $1, $4.memo) ;; {$1} ;; !{$2 == ctor(addr_t)}
each complete(get_wallet($0), %shared_ptr<Transaction>, $4, ctor(vector<pair<addr_t,uint128>>)) ;; {$1} ;; !{$2 == ctor(addr_t)}
each send_off($0, %shared_ptr<Transaction>) ;; {$1} ;; !{$2 == ctor(addr_t)} ;; {is_signed(%shared_ptr<Transaction>)} ;; {$4.auto_send}
each validate(@node, %shared_ptr<Transaction>) ;; {$1} ;; !{$2 == ctor(addr_t)} ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$4.auto_send}
each %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>) ;; {$1} ;; !{$2 == ctor(addr_t)} ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$4.auto_send}
each update_from(get_wallet($0), %shared_ptr<Transaction>) ;; {$1} ;; !{$2 == ctor(addr_t)} ;; {$4.mark_spent}
raise !{$1}
raise {$1} ;; {$2 == ctor(addr_t)}
exit !{$2 == ctor(addr_t)}
exit {$1}
exit {did %shared_ptr<Transaction>.note = tx_note_e::TRANSFER}
exit {did add_output(%shared_ptr<Transaction>, $3, $2, $1, $4.memo)}
exit {did complete(get_wallet($0), %shared_ptr<Transaction>, $4, ctor(vector<pair<addr_t,uint128>>))}
exit {did update_cache($0)}
exit !{$4.mark_spent} | {did update_from(get_wallet($0), %shared_ptr<Transaction>)}
exit !{$4.auto_send} | !{is_signed(%shared_ptr<Transaction>)} | {did send_off($0, %shared_ptr<Transaction>)}
exit !{is_signed(%shared_ptr<Transaction>)} | {$4.auto_send} | {did %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>)}
exit !{is_signed(%shared_ptr<Transaction>)} | {$4.auto_send} | {did validate(@node, %shared_ptr<Transaction>)}
at update_cache($0)
at %shared_ptr<Transaction>.note = tx_note_e::TRANSFER
at add_output(%shared_ptr<Transaction>, $3, $2, $1, $4.memo)
at complete(get_wallet($0), %shared_ptr<Transaction>, $4, ctor(vector<pair<addr_t,uint128>>))
at send_off($0, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; {$4.auto_send}
at validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$4.auto_send}
at %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$4.auto_send}
at update_from(get_wallet($0), %shared_ptr<Transaction>) ;; {$4.mark_spent}
fn mmx::Wallet::send_many
never break($1)
each update_cache($0)
each %shared_ptr<Transaction>.note = tx_note_e::TRANSFER
each add_output(%shared_ptr<Transaction>, $2, elem($1).first, elem($1).second, $3.memo) ;; !{ctor(addr_t) == elem($1).first} ;; {elem($1).second}
each complete(get_wallet($0), %shared_ptr<Transaction>, $3, ctor(vector<pair<addr_t,uint128>>))
each send_off($0, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; {$3.auto_send}
each validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$3.auto_send}
each %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$3.auto_send}
each update_from(get_wallet($0), %shared_ptr<Transaction>) ;; {$3.mark_spent}
raise {ctor(addr_t) == elem($1).first}
raise !{ctor(addr_t) == elem($1).first} ;; !{elem($1).second}
exit !{ctor(addr_t) == elem($1).first}
exit {did %shared_ptr<Transaction>.note = tx_note_e::TRANSFER}
exit {did add_output(%shared_ptr<Transaction>, $2, elem($1).first, elem($1).second, $3.memo)}
exit {did complete(get_wallet($0), %shared_ptr<Transaction>, $3, ctor(vector<pair<addr_t,uint128>>))}
exit {did update_cache($0)}
exit {elem($1).second}
exit !{$3.mark_spent} | {did update_from(get_wallet($0), %shared_ptr<Transaction>)}
exit !{$3.auto_send} | !{is_signed(%shared_ptr<Transaction>)} | {did send_off($0, %shared_ptr<Transaction>)}
exit !{is_signed(%shared_ptr<Transaction>)} | {$3.auto_send} | {did %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>)}
exit !{is_signed(%shared_ptr<Transaction>)} | {$3.auto_send} | {did validate(@node, %shared_ptr<Transaction>)}
at update_cache($0)
at %shared_ptr<Transaction>.note = tx_note_e::TRANSFER
at add_output(%shared_ptr<Transaction>, $2, elem($1).first, elem($1).second, $3.memo)
at complete(get_wallet($0), %shared_ptr<Transaction>, $3, ctor(vector<pair<addr_t,uint128>>))
at send_off($0, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; {$3.auto_send}
at validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$3.auto_send}
at %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$3.auto_send}
at update_from(get_wallet($0), %shared_ptr<Transaction>) ;; {$3.mark_spent}
fn mmx::Wallet::send_from
each update_cache($0)
each get_contract(@node, $3)
each insert($5.owner_map, $3, get_owner(get_contract(@node, $3))) ;; {get_contract(@node, $3)} ;; {get_owner(get_contract(@node, $3))}
each %shared_ptr<Transaction>.note = tx_note_e::WITHDRAW ;; {$1} ;; !{$2 == ctor(addr_t)}
each add_input(%shared_ptr<Transaction>, $4, $3, $1) ;; {$1} ;; !{$2 == ctor(addr_t)}
each add_output(%shared_ptr<Transaction>, $4, $2, $1, $5.memo) ;; {$1} ;; !{$2 == ctor(addr_t)}
each complete(get_wallet($0), %shared_ptr<Transaction>, $5, ctor(vector<pair<addr_t,uint128>>)) ;; {$1} ;; !{$2 == ctor(addr_t)}
each send_off($0, %shared_ptr<Transaction>) ;; {$1} ;; !{$2 == ctor(addr_t)} ;; {is_signed(%shared_ptr<Transaction>)} ;; {$5.auto_send}
each validate(@node, %shared_ptr<Transaction>) ;; {$1} ;; !{$2 == ctor(addr_t)} ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$5.auto_send}
each %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>) ;; {$1} ;; !{$2 == ctor(addr_t)} ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$5.auto_send}
each update_from(get_wallet($0), %shared_ptr<Transaction>) ;; {$1} ;; !{$2 == ctor(addr_t)} ;; {$5.mark_spent}
raise {get_contract(@node, $3)} ;; !{get_owner(get_contract(@node, $3))}
raise !{$1}
raise {$1} ;; {$2 == ctor(addr_t)}
exit !{$2 == ctor(addr_t)}
exit {$1}
exit {did %shared_ptr<Transaction>.note = tx_note_e::WITHDRAW}
exit {did add_input(%shared_ptr<Transaction>, $4, $3, $1)}
exit {did add_output(%shared_ptr<Transaction>, $4, $2, $1, $5.memo)}
exit {did complete(get_wallet($0), %shared_ptr<Transaction>, $5, ctor(vector<pair<addr_t,uint128>>))}
exit {did get_contract(@node, $3)}
exit {did update_cache($0)}
exit !{$5.mark_spent} | {did update_from(get_wallet($0), %shared_ptr<Transaction>)}
exit !{get_contract(@node, $3)} | {did insert($5.owner_map, $3, get_owner(get_contract(@node, $3)))}
exit !{get_contract(@node, $3)} | {get_owner(get_contract(@node, $3))}
exit !{$5.auto_send} | !{is_signed(%shared_ptr<Transaction>)} | {did send_off($0, %shared_ptr<Transaction>)}
exit !{is_signed(%shared_ptr<Transaction>)} | {$5.auto_send} | {did %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>)}
exit !{is_signed(%shared_ptr<Transaction>)} | {$5.auto_send} | {did validate(@node, %shared_ptr<Transaction>)}
at update_cache($0)
at get_contract(@node, $3)
at insert($5.owner_map, $3, get_owner(get_contract(@node, $3))) ;; {get_contract(@node, $3)} ;; {get_owner(get_contract(@node, $3))}
at %shared_ptr<Transaction>.note = tx_note_e::WITHDRAW
at add_input(%shared_ptr<Transaction>, $4, $3, $1)
at add_output(%shared_ptr<Transaction>, $4, $2, $1, $5.memo)
at complete(get_wallet($0), %shared_ptr<Transaction>, $5, ctor(vector<pair<addr_t,uint128>>))
at send_off($0, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; {$5.auto_send}
at validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$5.auto_send}
at %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$5.auto_send}
at update_from(get_wallet($0), %shared_ptr<Transaction>) ;; {$5.mark_spent}
fn mmx::Wallet::deploy
each update_cache($0) ;; {$1}
each %shared_ptr<Transaction>.note = tx_note_e::DEPLOY ;; {$1} ;; {is_valid($1)}
each %shared_ptr<Transaction>.deploy = $1 ;; {$1} ;; {is_valid($1)}
each complete(get_wallet($0), %shared_ptr<Transaction>, $2, ctor(vector<pair<addr_t,uint128>>)) ;; {$1} ;; {is_valid($1)}
each send_off($0, %shared_ptr<Transaction>) ;; {$1} ;; {is_valid($1)} ;; {is_signed(%shared_ptr<Transaction>)} ;; {$2.auto_send}
each validate(@node, %shared_ptr<Transaction>) ;; {$1} ;; {is_valid($1)} ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$2.auto_send}
each %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>) ;; {$1} ;; {is_valid($1)} ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$2.auto_send}
each update_from(get_wallet($0), %shared_ptr<Transaction>) ;; {$1} ;; {is_valid($1)} ;; {$2.mark_spent}
raise !{$1}
raise {$1} ;; !{$1} | !{is_valid($1)}
exit {$1}
exit {did %shared_ptr<Transaction>.deploy = $1}
exit {did %shared_ptr<Transaction>.note = tx_note_e::DEPLOY}
exit {did complete(get_wallet($0), %shared_ptr<Transaction>, $2, ctor(vector<pair<addr_t,uint128>>))}
exit {did update_cache($0)}
exit {is_valid($1)}
exit !{$2.mark_spent} | {did update_from(get_wallet($0), %shared_ptr<Transaction>)}
exit !{$2.auto_send} | !{is_signed(%shared_ptr<Transaction>)} | {did send_off($0, %shared_ptr<Transaction>)}
exit !{is_signed(%shared_ptr<Transaction>)} | {$2.auto_send} | {did %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>)}
exit !{is_signed(%shared_ptr<Transaction>)} | {$2.auto_send} | {did validate(@node, %shared_ptr<Transaction>)}
at update_cache($0)
at %shared_ptr<Transaction>.note = tx_note_e::DEPLOY
at %shared_ptr<Transaction>.deploy = $1
at complete(get_wallet($0), %shared_ptr<Transaction>, $2, ctor(vector<pair<addr_t,uint128>>))
at send_off($0, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; {$2.auto_send}
at validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$2.auto_send}
at %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$2.auto_send}
at update_from(get_wallet($0), %shared_ptr<Transaction>) ;; {$2.mark_spent}
fn mmx::Wallet::execute
each update_cache($0)
each %shared_ptr<operation::Execute>.address = $1
each %shared_ptr<operation::Execute>.method = $2
each %shared_ptr<operation::Execute>.args = $3
each %shared_ptr<operation::Execute>.user = ite({$4}, get_address(get_wallet($0), $4), $5.user)
each %shared_ptr<Transaction>.note = tx_note_e::EXECUTE
each push_back(%shared_ptr<Transaction>.execute, %shared_ptr<operation::Execute>)
each complete(get_wallet($0), %shared_ptr<Transaction>, $5, ctor(vector<pair<addr_t,uint128>>))
each send_off($0, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; {$5.auto_send}
each validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$5.auto_send}
each %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$5.auto_send}
each update_from(get_wallet($0), %shared_ptr<Transaction>) ;; {$5.mark_spent}
never throw …
exit {did %shared_ptr<Transaction>.note = tx_note_e::EXECUTE}
exit {did %shared_ptr<operation::Execute>.address = $1}
exit {did %shared_ptr<operation::Execute>.args = $3}
exit {did %shared_ptr<operation::Execute>.method = $2}
exit {did %shared_ptr<operation::Execute>.user = ite({$4}, get_address(get_wallet($0), $4), $5.user)}
exit {did complete(get_wallet($0), %shared_ptr<Transaction>, $5, ctor(vector<pair<addr_t,uint128>>))}
exit {did push_back(%shared_ptr<Transaction>.execute, %shared_ptr<operation::Execute>)}
exit {did update_cache($0)}
exit !{$5.mark_spent} | {did update_from(get_wallet($0), %shared_ptr<Transaction>)}
exit !{$5.auto_send} | !{is_signed(%shared_ptr<Transaction>)} | {did send_off($0, %shared_ptr<Transaction>)}
exit !{is_signed(%shared_ptr<Transaction>)} | {$5.auto_send} | {did %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>)}
exit !{is_signed(%shared_ptr<Transaction>)} | {$5.auto_send} | {did validate(@node, %shared_ptr<Transaction>)}
at update_cache($0)
at %shared_ptr<operation::Execute>.address = $1
at %shared_ptr<operation::Execute>.method = $2
at %shared_ptr<operation::Execute>.args = $3
at %shared_ptr<operation::Execute>.user = ite({$4}, get_address(get_wallet($0), $4), $5.user)
at %shared_ptr<Transaction>.note = tx_note_e::EXECUTE
at push_back(%shared_ptr<Transaction>.execute, %shared_ptr<operation::Execute>)
at complete(get_wallet($0), %shared_ptr<Transaction>, $5, ctor(vector<pair<addr_t,uint128>>))
at send_off($0, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; {$5.auto_send}
at validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$5.auto_send}
at %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$5.auto_send}
at update_from(get_wallet($0), %shared_ptr<Transaction>) ;; {$5.mark_spent}
fn mmx::Wallet::deposit
each update_cache($0)
each %shared_ptr<operation::Deposit>.address = $1
each %shared_ptr<operation::Deposit>.method = $2
each %shared_ptr<operation::Deposit>.args = $3
each %shared_ptr<operation::Deposit>.amount = $4
each %shared_ptr<operation::Deposit>.currency = $5
each %shared_ptr<operation::Deposit>.user = $6.user
each %shared_ptr<Transaction>.note = tx_note_e::DEPOSIT
each push_back(%shared_ptr<Transaction>.execute, %shared_ptr<operation::Deposit>)
each complete(get_wallet($0), %shared_ptr<Transaction>, $6, ctor(vector<pair<addr_t,uint128>>))
each send_off($0, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; {$6.auto_send}
each validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$6.auto_send}
each %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$6.auto_send}
each update_from(get_wallet($0), %shared_ptr<Transaction>) ;; {$6.mark_spent}
never throw …
exit {did %shared_ptr<Transaction>.note = tx_note_e::DEPOSIT}
exit {did %shared_ptr<operation::Deposit>.address = $1}
exit {did %shared_ptr<operation::Deposit>.amount = $4}
exit {did %shared_ptr<operation::Deposit>.args = $3}
exit {did %shared_ptr<operation::Deposit>.currency = $5}
exit {did %shared_ptr<operation::Deposit>.method = $2}
exit {did %shared_ptr<operation::Deposit>.user = $6.user}
exit {did complete(get_wallet($0), %shared_ptr<Transaction>, $6, ctor(vector<pair<addr_t,uint128>>))}
exit {did push_back(%shared_ptr<Transaction>.execute, %shared_ptr<operation::Deposit>)}
exit {did update_cache($0)}
exit !{$6.mark_spent} | {did update_from(get_wallet($0), %shared_ptr<Transaction>)}
exit !{$6.auto_send} | !{is_signed(%shared_ptr<Transaction>)} | {did send_off($0, %shared_ptr<Transaction>)}
exit !{is_signed(%shared_ptr<Transaction>)} | {$6.auto_send} | {did %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>)}
exit !{is_signed(%shared_ptr<Transaction>)} | {$6.auto_send} | {did validate(@node, %shared_ptr<Transaction>)}
at update_cache($0)
at %shared_ptr<operation::Deposit>.address = $1
at %shared_ptr<operation::Deposit>.method = $2
at %shared_ptr<operation::Deposit>.args = $3
at %shared_ptr<operation::Deposit>.amount = $4
at %shared_ptr<operation::Deposit>.currency = $5
at %shared_ptr<operation::Deposit>.user = $6.user
at %shared_ptr<Transaction>.note = tx_note_e::DEPOSIT
at push_back(%shared_ptr<Transaction>.execute, %shared_ptr<operation::Deposit>)
at complete(get_wallet($0), %shared_ptr<Transaction>, $6, ctor(vector<pair<addr_t,uint128>>))
at send_off($0, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; {$6.auto_send}
at validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$6.auto_send}
at %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$6.auto_send}
at update_from(get_wallet($0), %shared_ptr<Transaction>) ;; {$6.mark_spent}
fn mmx::Wallet::make_offer
each update_cache($0) ;; {$2} ;; {$4} ;; !{((wide256(($2 * 18446744073709551616)) / $4) >> 128)}
each %shared_ptr<contract::Executable>.binary = @params.offer_binary ;; {$2} ;; {$4} ;; !{((wide256(($2 * 18446744073709551616)) / $4) >> 128)}
each %shared_ptr<contract::Executable>.init_method = "init" ;; {$2} ;; {$4} ;; !{((wide256(($2 * 18446744073709551616)) / $4) >> 128)}
each push_back(%shared_ptr<contract::Executable>.init_args, to_string(get_address(get_wallet($0), $1))) ;; {$2} ;; {$4} ;; !{((wide256(($2 * 18446744073709551616)) / $4) >> 128)}
each push_back(%shared_ptr<contract::Executable>.init_args, to_string($3)) ;; {$2} ;; {$4} ;; !{((wide256(($2 * 18446744073709551616)) / $4) >> 128)}
each push_back(%shared_ptr<contract::Executable>.init_args, to_string($5)) ;; {$2} ;; {$4} ;; !{((wide256(($2 * 18446744073709551616)) / $4) >> 128)}
each push_back(%shared_ptr<contract::Executable>.init_args, to_hex_string((wide256(($2 * 18446744073709551616)) / $4))) ;; {$2} ;; {$4} ;; !{((wide256(($2 * 18446744073709551616)) / $4) >> 128)}
each push_back(%shared_ptr<contract::Executable>.init_args) ;; {$2} ;; {$4} ;; !{((wide256(($2 * 18446744073709551616)) / $4) >> 128)}
each %shared_ptr<Transaction>.note = tx_note_e::OFFER ;; {$2} ;; {$4} ;; !{((wide256(($2 * 18446744073709551616)) / $4) >> 128)}
each %shared_ptr<Transaction>.deploy = %shared_ptr<contract::Executable> ;; {$2} ;; {$4} ;; !{((wide256(($2 * 18446744073709551616)) / $4) >> 128)}
each push_back(%vector<pair<addr_t,uint128>>, $3, $2) ;; {$2} ;; {$4} ;; !{((wide256(($2 * 18446744073709551616)) / $4) >> 128)}
each complete(get_wallet($0), %shared_ptr<Transaction>, $6, %vector<pair<addr_t,uint128>>) ;; {$2} ;; {$4} ;; !{((wide256(($2 * 18446744073709551616)) / $4) >> 128)}
each send_off($0, %shared_ptr<Transaction>) ;; {$2} ;; {$4} ;; !{((wide256(($2 * 18446744073709551616)) / $4) >> 128)} ;; {is_signed(%shared_ptr<Transaction>)} ;; {$6.auto_send}
each validate(@node, %shared_ptr<Transaction>) ;; {$2} ;; {$4} ;; !{((wide256(($2 * 18446744073709551616)) / $4) >> 128)} ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$6.auto_send}
each %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>) ;; {$2} ;; {$4} ;; !{((wide256(($2 * 18446744073709551616)) / $4) >> 128)} ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$6.auto_send}
each update_from(get_wallet($0), %shared_ptr<Transaction>) ;; {$2} ;; {$4} ;; !{((wide256(($2 * 18446744073709551616)) / $4) >> 128)} ;; {$6.mark_spent}
raise !{$2} | !{$4}
raise {$2} ;; {$4} ;; {((wide256(($2 * 18446744073709551616)) / $4) >> 128)}
exit !{((wide256(($2 * 18446744073709551616)) / $4) >> 128)}
exit {$2}
exit {$4}
exit {did %shared_ptr<Transaction>.deploy = %shared_ptr<contract::Executable>}
exit {did %shared_ptr<Transaction>.note = tx_note_e::OFFER}
exit {did %shared_ptr<contract::Executable>.binary = @params.offer_binary}
exit {did %shared_ptr<contract::Executable>.init_method = "init"}
exit {did complete(get_wallet($0), %shared_ptr<Transaction>, $6, %vector<pair<addr_t,uint128>>)}
exit {did push_back(%shared_ptr<contract::Executable>.init_args)}
exit {did push_back(%shared_ptr<contract::Executable>.init_args, to_hex_string((wide256(($2 * 18446744073709551616)) / $4)))}
exit {did push_back(%vector<pair<addr_t,uint128>>, $3, $2)}
exit {did update_cache($0)}
exit !{$6.mark_spent} | {did update_from(get_wallet($0), %shared_ptr<Transaction>)}
exit !{$6.auto_send} | !{is_signed(%shared_ptr<Transaction>)} | {did send_off($0, %shared_ptr<Transaction>)}
exit !{is_signed(%shared_ptr<Transaction>)} | {$6.auto_send} | {did %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>)}
exit !{is_signed(%shared_ptr<Transaction>)} | {$6.auto_send} | {did validate(@node, %shared_ptr<Transaction>)}
at update_cache($0)
at %shared_ptr<contract::Executable>.binary = @params.offer_binary
at %shared_ptr<contract::Executable>.init_method = "init"
at push_back(%shared_ptr<contract::Executable>.init_args, to_string(get_address(get_wallet($0), $1)))
at push_back(%shared_ptr<contract::Executable>.init_args, to_string($3))
at push_back(%shared_ptr<contract::Executable>.init_args, to_string($5))
at push_back(%shared_ptr<contract::Executable>.init_args, to_hex_string((wide256(($2 * 18446744073709551616)) / $4)))
at push_back(%shared_ptr<contract::Executable>.init_args)
at %shared_ptr<Transaction>.note = tx_note_e::OFFER
at %shared_ptr<Transaction>.deploy = %shared_ptr<contract::Executable>
at push_back(%vector<pair<addr_t,uint128>>, $3, $2)
at complete(get_wallet($0), %shared_ptr<Transaction>, $6, %vector<pair<addr_t,uint128>>)
at send_off($0, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; {$6.auto_send}
at validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$6.auto_send}
at %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$6.auto_send}
at update_from(get_wallet($0), %shared_ptr<Transaction>) ;; {$6.mark_spent}
fn mmx::Wallet::offer_trade
each get_offer(@node, $1)
each push_back(%vector<Variant>, to_string(get_address(get_wallet($0), $3)))
each push_back(%vector<Variant>, to_hex_string($4))
each $5.note = tx_note_e::TRADE
never throw …
exit {did $5.note = tx_note_e::TRADE}
exit {did get_offer(@node, $1)}
exit {did push_back(%vector<Variant>, to_hex_string($4))}
exit {ret = deposit($0, $1, "trade", %vector<Variant>, $2, get_offer(@node, $1).ask_currency, $5)}
at get_offer(@node, $1)
at push_back(%vector<Variant>, to_string(get_address(get_wallet($0), $3)))
at push_back(%vector<Variant>, to_hex_string($4))
at $5.note = tx_note_e::TRADE
fn mmx::Wallet::accept_offer
each get_offer(@node, $1)
each push_back(%vector<Variant>, to_string(get_address(get_wallet($0), $2)))
each push_back(%vector<Variant>, to_hex_string($3))
each $4.note = tx_note_e::TRADE
never throw …
exit {did $4.note = tx_note_e::TRADE}
exit {did get_offer(@node, $1)}
exit {did push_back(%vector<Variant>, to_hex_string($3))}
exit {ret = deposit($0, $1, "accept", %vector<Variant>, get_offer(@node, $1).ask_amount, get_offer(@node, $1).ask_currency, $4)}
at get_offer(@node, $1)
at push_back(%vector<Variant>, to_string(get_address(get_wallet($0), $2)))
at push_back(%vector<Variant>, to_hex_string($3))
at $4.note = tx_note_e::TRADE
fn mmx::Wallet::cancel_offer
each get_offer(@node, $1)
each $2.user = get_offer(@node, $1).owner
never throw …
exit {did $2.user = get_offer(@node, $1).owner}
exit {did get_offer(@node, $1)}
exit {ret = execute($0, $1, "cancel", ctor(vector<Variant>), 0, $2)}
at get_offer(@node, $1)
at $2.user = get_offer(@node, $1).owner
fn mmx::Wallet::offer_withdraw
each get_offer(@node, $1)
each $2.user = get_offer(@node, $1).owner
never throw …
exit {did $2.user = get_offer(@node, $1).owner}
exit {did get_offer(@node, $1)}
exit {ret = execute($0, $1, "withdraw", ctor(vector<Variant>), 0, $2)}
at get_offer(@node, $1)
at $2.user = get_offer(@node, $1).owner
fn mmx::Wallet::swap_trade
never break(loop)
at push_back(%vector<Variant>, fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2)) ;; {-1 < fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2)}
never get_address(get_wallet($0), 0) ;; {-1 < fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2)}
at push_back(%vector<Variant>, to_string(get_address(get_wallet($0), 0))) ;; {-1 < fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2)}
never to_var_arg($4) ;; {-1 < fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2)} ;; {$4}
at push_back(%vector<Variant>, ite({$4}, to_var_arg($4), ctor(Variant))) ;; {-1 < fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2)}
at push_back(%vector<Variant>, $5) ;; {-1 < fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2)}
at $6.note = tx_note_e::TRADE ;; {-1 < fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2)}
never deposit($0, $1, "trade", %vector<Variant>, $2, $3, $6) ;; {-1 < fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2)}
each get_swap_info(@node, $1)
each push_back(%vector<Variant>, fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2)) ;; {-1 < fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2)}
each push_back(%vector<Variant>, to_string(get_address(get_wallet($0), 0))) ;; {-1 < fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2)}
each push_back(%vector<Variant>, ite({$4}, to_var_arg($4), ctor(Variant))) ;; {-1 < fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2)}
each push_back(%vector<Variant>, $5) ;; {-1 < fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2)}
each $6.note = tx_note_e::TRADE ;; {-1 < fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2)}
raise !{-1 < fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2)}
value fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2)
exit {-1 < fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2)}
exit {did $6.note = tx_note_e::TRADE}
exit {did get_swap_info(@node, $1)}
exit {did push_back(%vector<Variant>, $5)}
exit {did push_back(%vector<Variant>, fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2))}
exit {did push_back(%vector<Variant>, ite({$4}, to_var_arg($4), ctor(Variant)))}
exit {ret = deposit($0, $1, "trade", %vector<Variant>, $2, $3, $6)}
at get_swap_info(@node, $1)
at push_back(%vector<Variant>, fold(-1, ite({$3 == at(get_swap_info(@node, $1).tokens, idx(2))}, idx(2), ~), 2))
at push_back(%vector<Variant>, to_string(get_address(get_wallet($0), 0)))
at push_back(%vector<Variant>, ite({$4}, to_var_arg($4), ctor(Variant)))
at push_back(%vector<Variant>, $5)
at $6.note = tx_note_e::TRADE
fn mmx::Wallet::swap_add_liquid
never break(loop)
each update_cache($0)
each %shared_ptr<Transaction>.note = tx_note_e::DEPOSIT
each get_swap_info(@node, $1)
each %shared_ptr<operation::Deposit>.address = $1 ;; {at($2, idx(2))}
each %shared_ptr<operation::Deposit>.method = "add_liquid" ;; {at($2, idx(2))}
each %shared_ptr<operation::Deposit>.args = init(Variant[2], ctor(Variant, idx(2)), ctor(Variant, $3)) ;; {at($2, idx(2))}
each %shared_ptr<operation::Deposit>.amount = at($2, idx(2)) ;; {at($2, idx(2))}
each %shared_ptr<operation::Deposit>.currency = at(get_swap_info(@node, $1).tokens, idx(2)) ;; {at($2, idx(2))}
each %shared_ptr<operation::Deposit>.user = get_address(get_wallet($0), 0) ;; {at($2, idx(2))}
each push_back(%shared_ptr<Transaction>.execute, %shared_ptr<operation::Deposit>) ;; {at($2, idx(2))}
each complete(get_wallet($0), %shared_ptr<Transaction>, $4, ctor(vector<pair<addr_t,uint128>>))
each send_off($0, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; {$4.auto_send}
each validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$4.auto_send}
each %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$4.auto_send}
each update_from(get_wallet($0), %shared_ptr<Transaction>) ;; {$4.mark_spent}
never throw …
exit {did %shared_ptr<Transaction>.note = tx_note_e::DEPOSIT}
exit {did complete(get_wallet($0), %shared_ptr<Transaction>, $4, ctor(vector<pair<addr_t,uint128>>))}
exit {did get_swap_info(@node, $1)}
exit {did update_cache($0)}
exit !{$4.mark_spent} | {did update_from(get_wallet($0), %shared_ptr<Transaction>)}
exit !{at($2, idx(2))} | {did %shared_ptr<operation::Deposit>.address = $1}
exit !{at($2, idx(2))} | {did %shared_ptr<operation::Deposit>.amount = at($2, idx(2))}
exit !{at($2, idx(2))} | {did %shared_ptr<operation::Deposit>.args = init(Variant[2], ctor(Variant, idx(2)), ctor(Variant, $3))}
exit !{at($2, idx(2))} | {did %shared_ptr<operation::Deposit>.currency = at(get_swap_info(@node, $1).tokens, idx(2))}
exit !{at($2, idx(2))} | {did %shared_ptr<operation::Deposit>.method = "add_liquid"}
exit !{at($2, idx(2))} | {did %shared_ptr<operation::Deposit>.user = get_address(get_wallet($0), 0)}
exit !{at($2, idx(2))} | {did push_back(%shared_ptr<Transaction>.execute, %shared_ptr<operation::Deposit>)}
exit !{$4.auto_send} | !{is_signed(%shared_ptr<Transaction>)} | {did send_off($0, %shared_ptr<Transaction>)}
exit !{is_signed(%shared_ptr<Transaction>)} | {$4.auto_send} | {did %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>)}
exit !{is_signed(%shared_ptr<Transaction>)} | {$4.auto_send} | {did validate(@node, %shared_ptr<Transaction>)}
at update_cache($0)
at %shared_ptr<Transaction>.note = tx_note_e::DEPOSIT
at get_swap_info(@node, $1)
at %shared_ptr<operation::Deposit>.address = $1 ;; {at($2, idx(2))}
at %shared_ptr<operation::Deposit>.method = "add_liquid" ;; {at($2, idx(2))}
at %shared_ptr<operation::Deposit>.args = init(Variant[2], ctor(Variant, idx(2)), ctor(Variant, $3)) ;; {at($2, idx(2))}
at %shared_ptr<operation::Deposit>.amount = at($2, idx(2)) ;; {at($2, idx(2))}
at %shared_ptr<operation::Deposit>.currency = at(get_swap_info(@node, $1).tokens, idx(2)) ;; {at($2, idx(2))}
at %shared_ptr<operation::Deposit>.user = get_address(get_wallet($0), 0) ;; {at($2, idx(2))}
at push_back(%shared_ptr<Transaction>.execute, %shared_ptr<operation::Deposit>) ;; {at($2, idx(2))}
at complete(get_wallet($0), %shared_ptr<Transaction>, $4, ctor(vector<pair<addr_t,uint128>>))
at send_off($0, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; {$4.auto_send}
at validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$4.auto_send}
at %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$4.auto_send}
at update_from(get_wallet($0), %shared_ptr<Transaction>) ;; {$4.mark_spent}
fn mmx::Wallet::swap_rem_liquid
never break(loop)
each update_cache($0)
each %shared_ptr<Transaction>.note = tx_note_e::WITHDRAW
each %shared_ptr<operation::Execute>.address = $1
each %shared_ptr<operation::Execute>.method = "payout"
each %shared_ptr<operation::Execute>.user = get_address(get_wallet($0), 0)
each push_back(%shared_ptr<Transaction>.execute, %shared_ptr<operation::Execute>)
each %shared_ptr<operation::Execute>.address = $1 ;; {at($2, idx(2))}
each %shared_ptr<operation::Execute>.method = "rem_liquid" ;; {at($2, idx(2))}
each %shared_ptr<operation::Execute>.args = init(Variant[3], ctor(Variant, idx(2)), to_var_arg(at($2, idx(2))), ctor(Variant, false)) ;; {at($2, idx(2))}
each %shared_ptr<operation::Execute>.user = get_address(get_wallet($0), 0) ;; {at($2, idx(2))}
each push_back(%shared_ptr<Transaction>.execute, %shared_ptr<operation::Execute>) ;; {at($2, idx(2))}
each complete(get_wallet($0), %shared_ptr<Transaction>, $3, ctor(vector<pair<addr_t,uint128>>))
each send_off($0, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; {$3.auto_send}
each validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$3.auto_send}
each %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$3.auto_send}
each update_from(get_wallet($0), %shared_ptr<Transaction>) ;; {$3.mark_spent}
never throw …
exit {did %shared_ptr<Transaction>.note = tx_note_e::WITHDRAW}
exit {did %shared_ptr<operation::Execute>.address = $1}
exit {did %shared_ptr<operation::Execute>.method = "payout"}
exit {did %shared_ptr<operation::Execute>.user = get_address(get_wallet($0), 0)}
exit {did complete(get_wallet($0), %shared_ptr<Transaction>, $3, ctor(vector<pair<addr_t,uint128>>))}
exit {did push_back(%shared_ptr<Transaction>.execute, %shared_ptr<operation::Execute>)}
exit {did update_cache($0)}
exit !{$3.mark_spent} | {did update_from(get_wallet($0), %shared_ptr<Transaction>)}
exit !{at($2, idx(2))} | {did %shared_ptr<operation::Execute>.args = init(Variant[3], ctor(Variant, idx(2)), to_var_arg(at($2, idx(2))), ctor(Variant, false))}
exit !{at($2, idx(2))} | {did %shared_ptr<operation::Execute>.method = "rem_liquid"}
exit !{$3.auto_send} | !{is_signed(%shared_ptr<Transaction>)} | {did send_off($0, %shared_ptr<Transaction>)}
exit !{is_signed(%shared_ptr<Transaction>)} | {$3.auto_send} | {did %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>)}
exit !{is_signed(%shared_ptr<Transaction>)} | {$3.auto_send} | {did validate(@node, %shared_ptr<Transaction>)}
at update_cache($0)
at %shared_ptr<Transaction>.note = tx_note_e::WITHDRAW
at %shared_ptr<operation::Execute>.address = $1
at %shared_ptr<operation::Execute>.method = "payout"
at %shared_ptr<operation::Execute>.user = get_address(get_wallet($0), 0)
at push_back(%shared_ptr<Transaction>.execute, %shared_ptr<operation::Execute>)
at %shared_ptr<operation::Execute>.method = "rem_liquid" ;; {at($2, idx(2))}
at %shared_ptr<operation::Execute>.args = init(Variant[3], ctor(Variant, idx(2)), to_var_arg(at($2, idx(2))), ctor(Variant, false)) ;; {at($2, idx(2))}
at complete(get_wallet($0), %shared_ptr<Transaction>, $3, ctor(vector<pair<addr_t,uint128>>))
at send_off($0, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; {$3.auto_send}
at validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$3.auto_send}
at %shared_ptr<Transaction>.exec_result = validate(@node, %shared_ptr<Transaction>) ;; {is_signed(%shared_ptr<Transaction>)} ;; !{$3.auto_send}
at update_from(get_wallet($0), %shared_ptr<Transaction>) ;; {$3.mark_spent}
fn mmx::Wallet::plotnft_exec
each $3.user = get_plotnft_owner($0)
never throw …
exit {did $3.user = get_plotnft_owner($0)}
exit {ret = execute(find_wallet_by_addr(get_plotnft_owner($0)), $0, $1, $2, 0, $3)}
at $3.user = get_plotnft_owner($0)
fn mmx::Wallet::plotnft_create
each %shared_ptr<contract::Executable>.name = $1
each %shared_ptr<contract::Executable>.binary = @params.plot_nft_binary
each push_back(%shared_ptr<contract::Executable>.init_args, to_string(get_address(get_wallet($0), ite({$2}, $2, 0))))
never throw …
exit {did %shared_ptr<contract::Executable>.binary = @params.plot_nft_binary}
exit {did %shared_ptr<contract::Executable>.name = $1}
exit {ret = deploy($0, %shared_ptr<contract::Executable>, $3)}
at %shared_ptr<contract::Executable>.name = $1
at %shared_ptr<contract::Executable>.binary = @params.plot_nft_binary
at push_back(%shared_ptr<contract::Executable>.init_args, to_string(get_address(get_wallet($0), ite({$2}, $2, 0))))
fn mmx::Wallet::send_off
each reset(lock(at(@lock_timers, $0))) ;; {$1} ;; {has(@lock_timers, $0)} ;; {lock(at(@lock_timers, $0))}
each add_transaction(@node, $1, true) ;; {$1}
each update_from(get_wallet($0), $1) ;; {$1}
each %tx_log_entry_t.time = get_time_ms() ;; {$1}
each %tx_log_entry_t.tx = $1 ;; {$1}
each insert(@tx_log, get_address(get_wallet($0), 0), %tx_log_entry_t) ;; {$1}
each commit(@tx_log) ;; {$1}
never throw …
exit !{$1} | {did %tx_log_entry_t.time = get_time_ms()}
exit !{$1} | {did %tx_log_entry_t.tx = $1}
exit !{$1} | {did add_transaction(@node, $1, true)}
exit !{$1} | {did commit(@tx_log)}
exit !{$1} | {did insert(@tx_log, get_address(get_wallet($0), 0), %tx_log_entry_t)}
exit !{$1} | {did update_from(get_wallet($0), $1)}
exit !{$1} | !{has(@lock_timers, $0)} | !{lock(at(@lock_timers, $0))} | {did reset(lock(at(@lock_timers, $0)))}
at reset(lock(at(@lock_timers, $0))) ;; {$1} ;; {has(@lock_timers, $0)} ;; {lock(at(@lock_timers, $0))}
at add_transaction(@node, $1, true) ;; {$1}
at update_from(get_wallet($0), $1) ;; {$1}
at %tx_log_entry_t.time = get_time_ms() ;; {$1}
at %tx_log_entry_t.tx = $1 ;; {$1}
at insert(@tx_log, get_address(get_wallet($0), 0), %tx_log_entry_t) ;; {$1}
at commit(@tx_log) ;; {$1}
fn mmx::Wallet::mark_spent
never throw …
fn mmx::Wallet::reserve
never throw …
fn mmx::Wallet::release
never throw …
fn mmx::Wallet::release_all
each clear(elem(@wallets).reserved_map) ;; {elem(@wallets)}
never break(@wallets)
never throw …
exit !{elem(@wallets)} | {did clear(elem(@wallets).reserved_map)}
at clear(elem(@wallets).reserved_map) ;; {elem(@wallets)}
fn mmx::Wallet::reset_cache
each reset_cache(get_wallet($0))
each update_cache($0)
never throw …
exit {did reset_cache(get_wallet($0))}
exit {did update_cache($0)}
at reset_cache(get_wallet($0))
at update_cache($0)
fn mmx::Wallet::update_cache
each get_height(@node) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
each get_all_balances(@node, get_all_addresses(get_wallet($0)), @token_whitelist, 100) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
each get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), 0) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
each get_swap_liquidity_by(@node, get_all_addresses(get_wallet($0))) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
each get_tx_ids_since(@node, (-min(@params.commit_delay, get_wallet($0).height) + get_wallet($0).height)) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())} ;; !{empty(get_wallet($0).pending_tx)}
each clear(get_wallet($0).external_balance_map) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
each get_total_balances(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), 0), @token_whitelist, 100) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
each at(get_wallet($0).external_balance_map, elem(get_total_balances(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), 0), @token_whitelist, 100)).first) = (at(get_wallet($0).external_balance_map, elem(get_total_balances(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), 0), @token_whitelist, 100)).first) + elem(get_total_balances(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), 0), @token_whitelist, 100)).second) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
each at(get_wallet($0).external_balance_map, elem(elem(get_swap_liquidity_by(@node, get_all_addresses(get_wallet($0)))).second).first) = (at(get_wallet($0).external_balance_map, elem(elem(get_swap_liquidity_by(@node, get_all_addresses(get_wallet($0)))).second).first) + elem(elem(get_swap_liquidity_by(@node, get_all_addresses(get_wallet($0)))).second).second) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
each update_cache(get_wallet($0), get_all_balances(@node, get_all_addresses(get_wallet($0)), @token_whitelist, 100), ite({empty(get_wallet($0).pending_tx)}, ctor(vector<hash_t>), get_tx_ids_since(@node, (-min(@params.commit_delay, get_wallet($0).height) + get_wallet($0).height))), get_height(@node)) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
each get_wallet($0).last_update = get_time_ms() ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
never break(get_total_balances(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), 0), @token_whitelist, 100))
never break(elem(get_swap_liquidity_by(@node, get_all_addresses(get_wallet($0)))).second)
never break(get_swap_liquidity_by(@node, get_all_addresses(get_wallet($0))))
never throw …
exit !{@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())} | {did at(get_wallet($0).external_balance_map, elem(elem(get_swap_liquidity_by(@node, get_all_addresses(get_wallet($0)))).second).first) = (at(get_wallet($0).external_balance_map, elem(elem(get_swap_liquidity_by(@node, get_all_addresses(get_wallet($0)))).second).first) + elem(elem(get_swap_liquidity_by(@node, get_all_addresses(get_wallet($0)))).second).second)}
exit !{@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())} | {did at(get_wallet($0).external_balance_map, elem(get_total_balances(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), 0), @token_whitelist, 100)).first) = (at(get_wallet($0).external_balance_map, elem(get_total_balances(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), 0), @token_whitelist, 100)).first) + elem(get_total_balances(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), 0), @token_whitelist, 100)).second)}
exit !{@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())} | {did clear(get_wallet($0).external_balance_map)}
exit !{@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())} | {did get_all_balances(@node, get_all_addresses(get_wallet($0)), @token_whitelist, 100)}
exit !{@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())} | {did get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), 0)}
exit !{@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())} | {did get_height(@node)}
exit !{@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())} | {did get_swap_liquidity_by(@node, get_all_addresses(get_wallet($0)))}
exit !{@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())} | {did get_total_balances(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), 0), @token_whitelist, 100)}
exit !{@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())} | {did get_wallet($0).last_update = get_time_ms()}
exit !{@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())} | {did update_cache(get_wallet($0), get_all_balances(@node, get_all_addresses(get_wallet($0)), @token_whitelist, 100), ite({empty(get_wallet($0).pending_tx)}, ctor(vector<hash_t>), get_tx_ids_since(@node, (-min(@params.commit_delay, get_wallet($0).height) + get_wallet($0).height))), get_height(@node))}
exit !{@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())} | {did get_tx_ids_since(@node, (-min(@params.commit_delay, get_wallet($0).height) + get_wallet($0).height))} | {empty(get_wallet($0).pending_tx)}
at get_height(@node) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
at get_all_balances(@node, get_all_addresses(get_wallet($0)), @token_whitelist, 100) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
at get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), 0) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
at get_swap_liquidity_by(@node, get_all_addresses(get_wallet($0))) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
at get_tx_ids_since(@node, (-min(@params.commit_delay, get_wallet($0).height) + get_wallet($0).height)) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())} ;; !{empty(get_wallet($0).pending_tx)}
at clear(get_wallet($0).external_balance_map) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
at get_total_balances(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), 0), @token_whitelist, 100) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
at at(get_wallet($0).external_balance_map, elem(get_total_balances(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), 0), @token_whitelist, 100)).first) = (at(get_wallet($0).external_balance_map, elem(get_total_balances(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), 0), @token_whitelist, 100)).first) + elem(get_total_balances(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), 0), @token_whitelist, 100)).second) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
at at(get_wallet($0).external_balance_map, elem(elem(get_swap_liquidity_by(@node, get_all_addresses(get_wallet($0)))).second).first) = (at(get_wallet($0).external_balance_map, elem(elem(get_swap_liquidity_by(@node, get_all_addresses(get_wallet($0)))).second).first) + elem(elem(get_swap_liquidity_by(@node, get_all_addresses(get_wallet($0)))).second).second) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
at update_cache(get_wallet($0), get_all_balances(@node, get_all_addresses(get_wallet($0)), @token_whitelist, 100), ite({empty(get_wallet($0).pending_tx)}, ctor(vector<hash_t>), get_tx_ids_since(@node, (-min(@params.commit_delay, get_wallet($0).height) + get_wallet($0).height))), get_height(@node)) ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
at get_wallet($0).last_update = get_time_ms() ;; {@cache_timeout_ms < (-get_wallet($0).last_update + get_time_ms())}
fn mmx::Wallet::gather_inputs_for
each update_cache($0)
each gather_inputs(get_wallet($0), %shared_ptr<Transaction>, %map<pair<addr_t,addr_t>,uint128_t>, $1, $2, $3)
never throw …
exit {did gather_inputs(get_wallet($0), %shared_ptr<Transaction>, %map<pair<addr_t,addr_t>,uint128_t>, $1, $2, $3)}
exit {did update_cache($0)}
exit {ret = %shared_ptr<Transaction>.inputs}
at update_cache($0)
at gather_inputs(get_wallet($0), %shared_ptr<Transaction>, %map<pair<addr_t,addr_t>,uint128_t>, $1, $2, $3)
fn mmx::Wallet::get_balance
never throw …
exit !{has(get_balances($0, false), $1)} | {ret = at(get_balances($0, false), $1)}
exit {has(get_balances($0, false), $1)} | {ret = ctor(balance_t)}
fn mmx::Wallet::get_balances
each update_cache($0)
each at(%map<addr_t,balance_t>, elem(@token_whitelist)) = ctor(balance_t) ;; {$1}
each at(%map<addr_t,balance_t>, elem(get_wallet($0).balance_map).first.second).spendable = (at(%map<addr_t,balance_t>, elem(get_wallet($0).balance_map).first.second).spendable + elem(get_wallet($0).balance_map).second)
each at(%map<addr_t,balance_t>, elem(get_wallet($0).reserved_map).first.second).reserved = (at(%map<addr_t,balance_t>, elem(get_wallet($0).reserved_map).first.second).reserved + elem(get_wallet($0).reserved_map).second)
each at(%map<addr_t,balance_t>, elem(elem(get_wallet($0).pending_map).second).first.second).reserved = (at(%map<addr_t,balance_t>, elem(elem(get_wallet($0).pending_map).second).first.second).reserved + elem(elem(get_wallet($0).pending_map).second).second)
each at(%map<addr_t,balance_t>, elem(get_wallet($0).external_balance_map).first).locked = (at(%map<addr_t,balance_t>, elem(get_wallet($0).external_balance_map).first).locked + elem(get_wallet($0).external_balance_map).second)
each elem(%map<addr_t,balance_t>).second.total = (elem(%map<addr_t,balance_t>).second.locked + elem(%map<addr_t,balance_t>).second.reserved + elem(%map<addr_t,balance_t>).second.spendable)
each elem(%map<addr_t,balance_t>).second.is_validated = count(@token_whitelist, elem(%map<addr_t,balance_t>).first)
never break(@token_whitelist)
never break(get_wallet($0).balance_map)
never break(get_wallet($0).reserved_map)
never break(elem(get_wallet($0).pending_map).second)
never break(get_wallet($0).pending_map)
never break(get_wallet($0).external_balance_map)
never break(%map<addr_t,balance_t>)
never throw …
exit {did at(%map<addr_t,balance_t>, elem(elem(get_wallet($0).pending_map).second).first.second).reserved = (at(%map<addr_t,balance_t>, elem(elem(get_wallet($0).pending_map).second).first.second).reserved + elem(elem(get_wallet($0).pending_map).second).second)}
exit {did at(%map<addr_t,balance_t>, elem(get_wallet($0).balance_map).first.second).spendable = (at(%map<addr_t,balance_t>, elem(get_wallet($0).balance_map).first.second).spendable + elem(get_wallet($0).balance_map).second)}
exit {did at(%map<addr_t,balance_t>, elem(get_wallet($0).external_balance_map).first).locked = (at(%map<addr_t,balance_t>, elem(get_wallet($0).external_balance_map).first).locked + elem(get_wallet($0).external_balance_map).second)}
exit {did at(%map<addr_t,balance_t>, elem(get_wallet($0).reserved_map).first.second).reserved = (at(%map<addr_t,balance_t>, elem(get_wallet($0).reserved_map).first.second).reserved + elem(get_wallet($0).reserved_map).second)}
exit {did elem(%map<addr_t,balance_t>).second.is_validated = count(@token_whitelist, elem(%map<addr_t,balance_t>).first)}
exit {did elem(%map<addr_t,balance_t>).second.total = (elem(%map<addr_t,balance_t>).second.locked + elem(%map<addr_t,balance_t>).second.reserved + elem(%map<addr_t,balance_t>).second.spendable)}
exit {did update_cache($0)}
exit {ret = %map<addr_t,balance_t>}
exit !{$1} | {did at(%map<addr_t,balance_t>, elem(@token_whitelist)) = ctor(balance_t)}
at update_cache($0)
at at(%map<addr_t,balance_t>, elem(@token_whitelist)) = ctor(balance_t) ;; {$1}
at at(%map<addr_t,balance_t>, elem(get_wallet($0).balance_map).first.second).spendable = (at(%map<addr_t,balance_t>, elem(get_wallet($0).balance_map).first.second).spendable + elem(get_wallet($0).balance_map).second)
at at(%map<addr_t,balance_t>, elem(get_wallet($0).reserved_map).first.second).reserved = (at(%map<addr_t,balance_t>, elem(get_wallet($0).reserved_map).first.second).reserved + elem(get_wallet($0).reserved_map).second)
at at(%map<addr_t,balance_t>, elem(elem(get_wallet($0).pending_map).second).first.second).reserved = (at(%map<addr_t,balance_t>, elem(elem(get_wallet($0).pending_map).second).first.second).reserved + elem(elem(get_wallet($0).pending_map).second).second)
at at(%map<addr_t,balance_t>, elem(get_wallet($0).external_balance_map).first).locked = (at(%map<addr_t,balance_t>, elem(get_wallet($0).external_balance_map).first).locked + elem(get_wallet($0).external_balance_map).second)
at elem(%map<addr_t,balance_t>).second.total = (elem(%map<addr_t,balance_t>).second.locked + elem(%map<addr_t,balance_t>).second.reserved + elem(%map<addr_t,balance_t>).second.spendable)
at elem(%map<addr_t,balance_t>).second.is_validated = count(@token_whitelist, elem(%map<addr_t,balance_t>).first)
fn mmx::Wallet::get_total_balances
each get_total_balances(@node, $0, @token_whitelist, 100)
each at(%map<addr_t,balance_t>, elem(get_total_balances(@node, $0, @token_whitelist, 100)).first).total = elem(get_total_balances(@node, $0, @token_whitelist, 100)).second
each at(%map<addr_t,balance_t>, elem(get_total_balances(@node, $0, @token_whitelist, 100)).first).spendable = at(%map<addr_t,balance_t>, elem(get_total_balances(@node, $0, @token_whitelist, 100)).first).total
each at(%map<addr_t,balance_t>, elem(get_total_balances(@node, $0, @token_whitelist, 100)).first).is_validated = true
never break(get_total_balances(@node, $0, @token_whitelist, 100))
never throw …
exit {did at(%map<addr_t,balance_t>, elem(get_total_balances(@node, $0, @token_whitelist, 100)).first).is_validated = true}
exit {did at(%map<addr_t,balance_t>, elem(get_total_balances(@node, $0, @token_whitelist, 100)).first).spendable = at(%map<addr_t,balance_t>, elem(get_total_balances(@node, $0, @token_whitelist, 100)).first).total}
exit {did at(%map<addr_t,balance_t>, elem(get_total_balances(@node, $0, @token_whitelist, 100)).first).total = elem(get_total_balances(@node, $0, @token_whitelist, 100)).second}
exit {did get_total_balances(@node, $0, @token_whitelist, 100)}
exit {ret = %map<addr_t,balance_t>}
at get_total_balances(@node, $0, @token_whitelist, 100)
at at(%map<addr_t,balance_t>, elem(get_total_balances(@node, $0, @token_whitelist, 100)).first).total = elem(get_total_balances(@node, $0, @token_whitelist, 100)).second
at at(%map<addr_t,balance_t>, elem(get_total_balances(@node, $0, @token_whitelist, 100)).first).spendable = at(%map<addr_t,balance_t>, elem(get_total_balances(@node, $0, @token_whitelist, 100)).first).total
at at(%map<addr_t,balance_t>, elem(get_total_balances(@node, $0, @token_whitelist, 100)).first).is_validated = true
fn mmx::Wallet::get_contract_balances
each get_contract_balances(@node, $0, @token_whitelist, 100)
never throw …
exit {did get_contract_balances(@node, $0, @token_whitelist, 100)}
exit {ret = get_contract_balances(@node, $0, @token_whitelist, 100)}
at get_contract_balances(@node, $0, @token_whitelist, 100)
fn mmx::Wallet::get_contracts
never break(loop)
never get_type_name(at(get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1)))) ;; {fold(0, (~ + 1)) < size(get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2))} ;; {fold(0, (~ + 1)) < size(get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)))} ;; {at(get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1)))} ;; {$1}
each get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)
each get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2))
each at(%map<addr_t,shared_ptr<Contract>>, at(get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2), fold(0, (~ + 1)))) = at(get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1))) ;; {fold(0, (~ + 1)) < size(get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2))} ;; {fold(0, (~ + 1)) < size(get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)))} ;; {at(get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1)))} ;; !{$1} | {$1 == get_type_name(at(get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1))))}
never throw …
value fold(0, (~ + 1))
exit {did get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2))}
exit {did get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)}
exit {ret = %map<addr_t,shared_ptr<Contract>>}
exit !{fold(0, (~ + 1)) < size(get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)))} | !{fold(0, (~ + 1)) < size(get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2))}
exit !{$1 == get_type_name(at(get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1))))} | !{at(get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1)))} | {did at(%map<addr_t,shared_ptr<Contract>>, at(get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2), fold(0, (~ + 1)))) = at(get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1)))}
exit !{at(get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1)))} | {$1} | {did at(%map<addr_t,shared_ptr<Contract>>, at(get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2), fold(0, (~ + 1)))) = at(get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1)))}
at get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)
at get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2))
at at(%map<addr_t,shared_ptr<Contract>>, at(get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2), fold(0, (~ + 1)))) = at(get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1))) ;; {fold(0, (~ + 1)) < size(get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2))} ;; {fold(0, (~ + 1)) < size(get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)))} ;; {at(get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1)))} ;; !{$1} | {$1 == get_type_name(at(get_contracts(@node, get_contracts_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1))))}
fn mmx::Wallet::get_contracts_owned
never break(loop)
never get_type_name(at(get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1)))) ;; {fold(0, (~ + 1)) < size(get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2))} ;; {fold(0, (~ + 1)) < size(get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)))} ;; {at(get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1)))} ;; {$1}
each get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)
each get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2))
each at(%map<addr_t,shared_ptr<Contract>>, at(get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2), fold(0, (~ + 1)))) = at(get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1))) ;; {fold(0, (~ + 1)) < size(get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2))} ;; {fold(0, (~ + 1)) < size(get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)))} ;; {at(get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1)))} ;; !{$1} | {$1 == get_type_name(at(get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1))))}
never throw …
value fold(0, (~ + 1))
exit {did get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2))}
exit {did get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)}
exit {ret = %map<addr_t,shared_ptr<Contract>>}
exit !{fold(0, (~ + 1)) < size(get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)))} | !{fold(0, (~ + 1)) < size(get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2))}
exit !{$1 == get_type_name(at(get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1))))} | !{at(get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1)))} | {did at(%map<addr_t,shared_ptr<Contract>>, at(get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2), fold(0, (~ + 1)))) = at(get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1)))}
exit !{at(get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1)))} | {$1} | {did at(%map<addr_t,shared_ptr<Contract>>, at(get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2), fold(0, (~ + 1)))) = at(get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1)))}
at get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)
at get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2))
at at(%map<addr_t,shared_ptr<Contract>>, at(get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2), fold(0, (~ + 1)))) = at(get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1))) ;; {fold(0, (~ + 1)) < size(get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2))} ;; {fold(0, (~ + 1)) < size(get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)))} ;; {at(get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1)))} ;; !{$1} | {$1 == get_type_name(at(get_contracts(@node, get_contracts_owned_by(@node, get_all_addresses(get_wallet($0)), $2)), fold(0, (~ + 1))))}
fn mmx::Wallet::get_history
each $1.currency = @token_whitelist ;; {$1.white_list}
each get_history(@node, get_all_addresses(get_wallet($0)), $1)
each elem(get_history(@node, get_all_addresses(get_wallet($0)), $1)).is_validated = ({$1.white_list} || {has(@token_whitelist, elem(get_history(@node, get_all_addresses(get_wallet($0)), $1)).contract)})
each push_back(%vector<tx_entry_t>, elem(get_history(@node, get_all_addresses(get_wallet($0)), $1)))
never break(get_history(@node, get_all_addresses(get_wallet($0)), $1))
never throw …
exit {did elem(get_history(@node, get_all_addresses(get_wallet($0)), $1)).is_validated = ({$1.white_list} || {has(@token_whitelist, elem(get_history(@node, get_all_addresses(get_wallet($0)), $1)).contract)})}
exit {did get_history(@node, get_all_addresses(get_wallet($0)), $1)}
exit {did push_back(%vector<tx_entry_t>, elem(get_history(@node, get_all_addresses(get_wallet($0)), $1)))}
exit {ret = %vector<tx_entry_t>}
exit !{$1.white_list} | {did $1.currency = @token_whitelist}
at $1.currency = @token_whitelist ;; {$1.white_list}
at get_history(@node, get_all_addresses(get_wallet($0)), $1)
at elem(get_history(@node, get_all_addresses(get_wallet($0)), $1)).is_validated = ({$1.white_list} || {has(@token_whitelist, elem(get_history(@node, get_all_addresses(get_wallet($0)), $1)).contract)})
at push_back(%vector<tx_entry_t>, elem(get_history(@node, get_all_addresses(get_wallet($0)), $1)))
fn mmx::Wallet::get_tx_log
each find_last(@tx_log, get_address(get_wallet($0), 0), %vector<tx_log_entry_t>, $1)
never throw …
exit {did find_last(@tx_log, get_address(get_wallet($0), 0), %vector<tx_log_entry_t>, $1)}
exit {ret = %vector<tx_log_entry_t>}
at find_last(@tx_log, get_address(get_wallet($0), 0), %vector<tx_log_entry_t>, $1)
fn mmx::Wallet::get_plotnft_owner
each get_plot_nft_info(@node, $0)
raise !{get_plot_nft_info(@node, $0)}
exit {did get_plot_nft_info(@node, $0)}
exit {get_plot_nft_info(@node, $0)}
exit {ret = get_plot_nft_info(@node, $0).owner}
at get_plot_nft_info(@node, $0)
fn mmx::Wallet::get_token_list
each get_contracts(@node, %vector<addr_t>)
each insert(%set<addr_t>, at(%vector<addr_t>, idx(get_contracts(@node, %vector<addr_t>)))) ;; {is<contract::TokenBase>(elem(get_contracts(@node, %vector<addr_t>)))} ;; {elem(get_contracts(@node, %vector<addr_t>))}
never break(get_contracts(@node, %vector<addr_t>))
never throw …
at ctor:vector<addr_t>(begin(@token_whitelist), end(@token_whitelist), ctor(allocator<addr_t>))
exit {did get_contracts(@node, %vector<addr_t>)}
exit {ret = %set<addr_t>}
exit !{elem(get_contracts(@node, %vector<addr_t>))} | !{is<contract::TokenBase>(elem(get_contracts(@node, %vector<addr_t>)))} | {did insert(%set<addr_t>, at(%vector<addr_t>, idx(get_contracts(@node, %vector<addr_t>))))}
at get_contracts(@node, %vector<addr_t>)
at insert(%set<addr_t>, at(%vector<addr_t>, idx(get_contracts(@node, %vector<addr_t>)))) ;; {is<contract::TokenBase>(elem(get_contracts(@node, %vector<addr_t>)))} ;; {elem(get_contracts(@node, %vector<addr_t>))}
fn mmx::Wallet::add_token
each insert(%set<string,less<string>,allocator<string>>, to_string(elem(to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "token_whitelist+")))))
each insert(%set<string,less<string>,allocator<string>>, to_string($0))
each at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "token_whitelist+") = %set<string,less<string>,allocator<string>>
each write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json")))
each insert(@token_whitelist, $0)
never break(to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "token_whitelist+")))
never throw …
exit {did at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "token_whitelist+") = %set<string,less<string>,allocator<string>>}
exit {did insert(@token_whitelist, $0)}
exit {did write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json")))}
at insert(%set<string,less<string>,allocator<string>>, to_string(elem(to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "token_whitelist+")))))
at insert(%set<string,less<string>,allocator<string>>, to_string($0))
at at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "token_whitelist+") = %set<string,less<string>,allocator<string>>
at write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json")))
at insert(@token_whitelist, $0)
fn mmx::Wallet::rem_token
never break(to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "token_whitelist+")))
each insert(%set<string,less<string>,allocator<string>>, to_string(elem(to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "token_whitelist+")))))
each erase(%set<string,less<string>,allocator<string>>, to_string($0))
each at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "token_whitelist+") = %set<string,less<string>,allocator<string>> ;; {erase(%set<string,less<string>,allocator<string>>, to_string($0))}
each write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json"))) ;; {erase(%set<string,less<string>,allocator<string>>, to_string($0))}
each erase(@token_whitelist, $0) ;; {erase(%set<string,less<string>,allocator<string>>, to_string($0))} ;; !{$0 == ctor(addr_t)}
raise !{erase(%set<string,less<string>,allocator<string>>, to_string($0))}
exit {did at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "token_whitelist+") = %set<string,less<string>,allocator<string>>}
exit {did write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json")))}
exit {$0 == ctor(addr_t)} | {did erase(@token_whitelist, $0)}
at insert(%set<string,less<string>,allocator<string>>, to_string(elem(to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "token_whitelist+")))))
at erase(%set<string,less<string>,allocator<string>>, to_string($0))
at at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "token_whitelist+") = %set<string,less<string>,allocator<string>>
at write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json")))
at erase(@token_whitelist, $0) ;; !{$0 == ctor(addr_t)}
