tus src/Node_verify.cpp src/pos/verify.cpp src/pos/verify_full.cpp
fn mmx::Node::add_proof
each insert(@challenge_map, $1, $0.challenge) ;; {empty(at(@proof_map, $0.challenge))}
each at(@farmer_keys, $0.farmer_key) = $2 ;; {get_pipe($2)}
each %Node::proof_data_t.hash = calc_proof_hash($0)
each %Node::proof_data_t.proof = $0
each %Node::proof_data_t.farmer_mac = $2
each push_back(at(@proof_map, $0.challenge), %Node::proof_data_t)
each sort(begin(at(@proof_map, $0.challenge)), end(at(@proof_map, $0.challenge)), by({$cb0.hash < $cb1.hash}))
never throw …
exit {calc_proof_hash($0) == elem(at(@proof_map, $0.challenge)).hash} | {did %Node::proof_data_t.farmer_mac = $2}
exit {calc_proof_hash($0) == elem(at(@proof_map, $0.challenge)).hash} | {did %Node::proof_data_t.hash = calc_proof_hash($0)}
exit {calc_proof_hash($0) == elem(at(@proof_map, $0.challenge)).hash} | {did %Node::proof_data_t.proof = $0}
exit {calc_proof_hash($0) == elem(at(@proof_map, $0.challenge)).hash} | {did push_back(at(@proof_map, $0.challenge), %Node::proof_data_t)}
exit {calc_proof_hash($0) == elem(at(@proof_map, $0.challenge)).hash} | {did sort(begin(at(@proof_map, $0.challenge)), end(at(@proof_map, $0.challenge)), by({$cb0.hash < $cb1.hash}))}
exit !{empty(at(@proof_map, $0.challenge))} | {calc_proof_hash($0) == elem(at(@proof_map, $0.challenge)).hash} | {did insert(@challenge_map, $1, $0.challenge)}
exit !{get_pipe($2)} | {calc_proof_hash($0) == elem(at(@proof_map, $0.challenge)).hash} | {did at(@farmer_keys, $0.farmer_key) = $2}
at insert(@challenge_map, $1, $0.challenge) ;; {empty(at(@proof_map, $0.challenge))} ;; !{calc_proof_hash($0) == elem(at(@proof_map, $0.challenge)).hash}
at at(@farmer_keys, $0.farmer_key) = $2 ;; {get_pipe($2)} ;; !{calc_proof_hash($0) == elem(at(@proof_map, $0.challenge)).hash}
at %Node::proof_data_t.hash = calc_proof_hash($0) ;; !{calc_proof_hash($0) == elem(at(@proof_map, $0.challenge)).hash}
at %Node::proof_data_t.proof = $0 ;; !{calc_proof_hash($0) == elem(at(@proof_map, $0.challenge)).hash}
at %Node::proof_data_t.farmer_mac = $2 ;; !{calc_proof_hash($0) == elem(at(@proof_map, $0.challenge)).hash}
at push_back(at(@proof_map, $0.challenge), %Node::proof_data_t) ;; !{calc_proof_hash($0) == elem(at(@proof_map, $0.challenge)).hash}
at sort(begin(at(@proof_map, $0.challenge)), end(at(@proof_map, $0.challenge)), by({$cb0.hash < $cb1.hash})) ;; !{calc_proof_hash($0) == elem(at(@proof_map, $0.challenge)).hash}
never break(at(@proof_map, $0.challenge)) ;; {calc_proof_hash($0) == elem(at(@proof_map, $0.challenge)).hash}
fn mmx::Node::verify
each validate($0) ;; {is_valid($0)}
each find_challenge($0.vdf_height, ctor(hash_t), 0) ;; {is_valid($0)}
each verify_proof($0.proof, out(find_challenge‥, $0.vdf_height, 0), out(find_challenge‥, $0.vdf_height, ctor(hash_t)), $0.vdf_height) ;; {is_valid($0)} ;; {find_challenge($0.vdf_height, ctor(hash_t), 0)}
each publish($0, @output_verified_proof, 0) ;; {is_valid($0)} ;; {find_challenge($0.vdf_height, ctor(hash_t), 0)}
raise !{is_valid($0)}
raise {is_valid($0)} ;; {get_root()} ;; !{get_root().vdf_height < $0.vdf_height}
raise {is_valid($0)} ;; !{find_challenge($0.vdf_height, ctor(hash_t), 0)}
exit {did find_challenge($0.vdf_height, ctor(hash_t), 0)}
exit {did publish($0, @output_verified_proof, 0)}
exit {did validate($0)}
exit {did verify_proof($0.proof, out(find_challenge‥, $0.vdf_height, 0), out(find_challenge‥, $0.vdf_height, ctor(hash_t)), $0.vdf_height)}
exit {find_challenge($0.vdf_height, ctor(hash_t), 0)}
exit {is_valid($0)}
exit !{get_root()} | {get_root().vdf_height < $0.vdf_height}
at validate($0)
at find_challenge($0.vdf_height, ctor(hash_t), 0)
at verify_proof($0.proof, out(find_challenge‥, $0.vdf_height, 0), out(find_challenge‥, $0.vdf_height, ctor(hash_t)), $0.vdf_height)
at publish($0, @output_verified_proof, 0)
at publish($0, @output_verified_proof, 0) ;; {did find_challenge($0.vdf_height, ctor(hash_t), 0)} ;; {did validate($0)} ;; {did verify_proof($0.proof, out(find_challenge‥, $0.vdf_height, 0), out(find_challenge‥, $0.vdf_height, ctor(hash_t)), $0.vdf_height)} ;; {find_challenge($0.vdf_height, ctor(hash_t), 0)} ;; {is_valid($0)} ;; !{get_root()} | {get_root().vdf_height < $0.vdf_height}
fn mmx::Node::verify_proof sig=BlockHeader
never break(loop)
at insert(%set<hash_t>, calc_proof_hash(elem($0.proof))) ;; {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; !{calc_proof_hash(elem($0.proof)) < fold(ctor(hash_t), calc_proof_hash(elem($0.proof)), $0.proof)} ;; !{empty(%set<hash_t>)} | {$0.proof_hash == calc_proof_hash(elem($0.proof))}
at validate_diff_adjust($0.time_diff, find_prev($0, 1, false).time_diff) ;; {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion‥, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider}
at calc_next_challenge(@params, find_prev($0, 1, false), $0, false) ;; {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion‥, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider}
never calc_new_space_diff(@params, find_prev($0, 1, false)) ;; {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion‥, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.challenge == calc_next_challenge(@params, find_prev($0, 1, false), $0, false)} ;; {$0.is_space_fork == out(calc_next_challenge‥, @params, find_prev($0, 1, false), $0)} ;; {out(calc_next_challenge‥, @params, find_prev($0, 1, false), $0)}
never calc_block_weight(@params, $0, find_prev($0, 1, false)) ;; {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion‥, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.challenge == calc_next_challenge(@params, find_prev($0, 1, false), $0, false)} ;; {$0.is_space_fork == out(calc_next_challenge‥, @params, find_prev($0, 1, false), $0)}
at get_challenge($0, 0, 0) ;; {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion‥, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.challenge == calc_next_challenge(@params, find_prev($0, 1, false), $0, false)} ;; {$0.is_space_fork == out(calc_next_challenge‥, @params, find_prev($0, 1, false), $0)} ;; {$0.weight == calc_block_weight(@params, $0, find_prev($0, 1, false))} ;; {$0.total_weight == ($0.weight + find_prev($0, 1, false).total_weight)}
at verify_proof(elem($0.proof), get_challenge($0, 0, 0), out(get_challenge‥, $0, 0), $0.vdf_height) ;; {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion‥, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.challenge == calc_next_challenge(@params, find_prev($0, 1, false), $0, false)} ;; {$0.is_space_fork == out(calc_next_challenge‥, @params, find_prev($0, 1, false), $0)} ;; {$0.weight == calc_block_weight(@params, $0, find_prev($0, 1, false))} ;; {$0.total_weight == ($0.weight + find_prev($0, 1, false).total_weight)}
each insert(%set<hash_t>, calc_proof_hash(elem($0.proof))) ;; {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; !{calc_proof_hash(elem($0.proof)) < fold(ctor(hash_t), calc_proof_hash(elem($0.proof)), $0.proof)} ;; !{empty(%set<hash_t>)} | {$0.proof_hash == calc_proof_hash(elem($0.proof))}
each get_infusion(find_prev($0, 1, false), idx($0.vdf_count), 0) ;; {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)}
each validate_diff_adjust($0.time_diff, find_prev($0, 1, false).time_diff) ;; {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion‥, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider}
each calc_next_challenge(@params, find_prev($0, 1, false), $0, false) ;; {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion‥, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider}
each get_challenge($0, 0, 0) ;; {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion‥, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.challenge == calc_next_challenge(@params, find_prev($0, 1, false), $0, false)} ;; {$0.is_space_fork == out(calc_next_challenge‥, @params, find_prev($0, 1, false), $0)} ;; {$0.weight == calc_block_weight(@params, $0, find_prev($0, 1, false))} ;; {$0.total_weight == ($0.weight + find_prev($0, 1, false).total_weight)}
each verify_proof(elem($0.proof), get_challenge($0, 0, 0), out(get_challenge‥, $0, 0), $0.vdf_height) ;; {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion‥, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.challenge == calc_next_challenge(@params, find_prev($0, 1, false), $0, false)} ;; {$0.is_space_fork == out(calc_next_challenge‥, @params, find_prev($0, 1, false), $0)} ;; {$0.weight == calc_block_weight(@params, $0, find_prev($0, 1, false))} ;; {$0.total_weight == ($0.weight + find_prev($0, 1, false).total_weight)}
never break($0.proof)
raise !{find_prev($0, 1, false)}
raise {find_prev($0, 1, false)} ;; {@params.max_vdf_count < $0.vdf_count}
raise {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; !{$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)}
raise {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; {empty($0.proof)}
raise {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; {@params.max_proof_count < size($0.proof)}
raise {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {calc_proof_hash(elem($0.proof)) < fold(ctor(hash_t), calc_proof_hash(elem($0.proof)), $0.proof)}
raise {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; !{calc_proof_hash(elem($0.proof)) < fold(ctor(hash_t), calc_proof_hash(elem($0.proof)), $0.proof)} ;; {empty(%set<hash_t>)} ;; !{$0.proof_hash == calc_proof_hash(elem($0.proof))}
raise {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; !{calc_proof_hash(elem($0.proof)) < fold(ctor(hash_t), calc_proof_hash(elem($0.proof)), $0.proof)} ;; !{empty(%set<hash_t>)} | {$0.proof_hash == calc_proof_hash(elem($0.proof))} ;; !{inserted(%set<hash_t>, calc_proof_hash(elem($0.proof)))}
raise {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; !{$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; !{$0.height < @params.hardfork2_height}
raise {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; !{$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion#v, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)}
raise {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion#v, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; {$0.time_diff < @params.time_diff_divider}
raise {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion#v, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider} ;; !{$0.challenge == calc_next_challenge(@params, find_prev($0, 1, false), $0, false)}
raise {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion#v, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.challenge == calc_next_challenge(@params, find_prev($0, 1, false), $0, false)} ;; !{$0.is_space_fork == out(calc_next_challenge#v, @params, find_prev($0, 1, false), $0)}
raise {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion#v, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.challenge == calc_next_challenge(@params, find_prev($0, 1, false), $0, false)} ;; {$0.is_space_fork == out(calc_next_challenge#v, @params, find_prev($0, 1, false), $0)} ;; {out(calc_next_challenge#v, @params, find_prev($0, 1, false), $0)} ;; !{$0.space_diff == calc_new_space_diff(@params, find_prev($0, 1, false))}
raise {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion#v, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.challenge == calc_next_challenge(@params, find_prev($0, 1, false), $0, false)} ;; {$0.is_space_fork == out(calc_next_challenge#v, @params, find_prev($0, 1, false), $0)} ;; {out(calc_next_challenge#v, @params, find_prev($0, 1, false), $0)} ;; {$0.space_diff == calc_new_space_diff(@params, find_prev($0, 1, false))} ;; !{$0.space_fork_len == $0.vdf_count}
raise {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion#v, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.challenge == calc_next_challenge(@params, find_prev($0, 1, false), $0, false)} ;; {$0.is_space_fork == out(calc_next_challenge#v, @params, find_prev($0, 1, false), $0)} ;; {out(calc_next_challenge#v, @params, find_prev($0, 1, false), $0)} ;; {$0.space_diff == calc_new_space_diff(@params, find_prev($0, 1, false))} ;; {$0.space_fork_len == $0.vdf_count} ;; !{$0.space_fork_proofs == size($0.proof)}
raise {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion#v, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.challenge == calc_next_challenge(@params, find_prev($0, 1, false), $0, false)} ;; {$0.is_space_fork == out(calc_next_challenge#v, @params, find_prev($0, 1, false), $0)} ;; !{out(calc_next_challenge#v, @params, find_prev($0, 1, false), $0)} ;; !{$0.space_diff == find_prev($0, 1, false).space_diff}
raise {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion#v, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.challenge == calc_next_challenge(@params, find_prev($0, 1, false), $0, false)} ;; {$0.is_space_fork == out(calc_next_challenge#v, @params, find_prev($0, 1, false), $0)} ;; !{out(calc_next_challenge#v, @params, find_prev($0, 1, false), $0)} ;; {$0.space_diff == find_prev($0, 1, false).space_diff} ;; !{$0.space_fork_len == ($0.vdf_count + find_prev($0, 1, false).space_fork_len)}
raise {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion#v, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.challenge == calc_next_challenge(@params, find_prev($0, 1, false), $0, false)} ;; {$0.is_space_fork == out(calc_next_challenge#v, @params, find_prev($0, 1, false), $0)} ;; !{out(calc_next_challenge#v, @params, find_prev($0, 1, false), $0)} ;; {$0.space_diff == find_prev($0, 1, false).space_diff} ;; {$0.space_fork_len == ($0.vdf_count + find_prev($0, 1, false).space_fork_len)} ;; !{$0.space_fork_proofs == (find_prev($0, 1, false).space_fork_proofs + size($0.proof))}
raise {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion#v, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.challenge == calc_next_challenge(@params, find_prev($0, 1, false), $0, false)} ;; {$0.is_space_fork == out(calc_next_challenge#v, @params, find_prev($0, 1, false), $0)} ;; !{$0.weight == calc_block_weight(@params, $0, find_prev($0, 1, false))}
raise {find_prev($0, 1, false)} ;; !{@params.max_vdf_count < $0.vdf_count} ;; {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)} ;; !{empty($0.proof)} ;; !{@params.max_proof_count < size($0.proof)} ;; {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)} ;; {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion#v, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.challenge == calc_next_challenge(@params, find_prev($0, 1, false), $0, false)} ;; {$0.is_space_fork == out(calc_next_challenge#v, @params, find_prev($0, 1, false), $0)} ;; {$0.weight == calc_block_weight(@params, $0, find_prev($0, 1, false))} ;; !{$0.total_weight == ($0.weight + find_prev($0, 1, false).total_weight)}
value fold(ctor(hash_t), calc_proof_hash(elem($0.proof)), $0.proof)
value fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion#v, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)
exit !{$0.time_diff < @params.time_diff_divider}
exit !{@params.max_proof_count < size($0.proof)}
exit !{@params.max_vdf_count < $0.vdf_count}
exit !{calc_proof_hash(elem($0.proof)) < fold(ctor(hash_t), calc_proof_hash(elem($0.proof)), $0.proof)}
exit !{empty($0.proof)}
exit {$0.challenge == calc_next_challenge(@params, find_prev($0, 1, false), $0, false)}
exit {$0.is_space_fork == out(calc_next_challenge‥, @params, find_prev($0, 1, false), $0)}
exit {$0.total_weight == ($0.weight + find_prev($0, 1, false).total_weight)}
exit {$0.vdf_height == ($0.vdf_count + find_prev($0, 1, false).vdf_height)}
exit {$0.vdf_iters == fold(find_prev($0, 1, false).vdf_iters, (out(get_infusion‥, find_prev($0, 1, false), idx($0.vdf_count)) + ~), $0.vdf_count)}
exit {$0.weight == calc_block_weight(@params, $0, find_prev($0, 1, false))}
exit {did calc_next_challenge(@params, find_prev($0, 1, false), $0, false)}
exit {did get_challenge($0, 0, 0)}
exit {did get_infusion(find_prev($0, 1, false), idx($0.vdf_count), 0)}
exit {did insert(%set<hash_t>, calc_proof_hash(elem($0.proof)))}
exit {did validate_diff_adjust($0.time_diff, find_prev($0, 1, false).time_diff)}
exit {did verify_proof(elem($0.proof), get_challenge($0, 0, 0), out(get_challenge‥, $0, 0), $0.vdf_height)}
exit {find_prev($0, 1, false)}
exit {inserted(%set<hash_t>, calc_proof_hash(elem($0.proof)))}
exit !{empty(%set<hash_t>)} | {$0.proof_hash == calc_proof_hash(elem($0.proof))}
exit !{out(calc_next_challenge‥, @params, find_prev($0, 1, false), $0)} | {$0.space_diff == calc_new_space_diff(@params, find_prev($0, 1, false))}
exit !{out(calc_next_challenge‥, @params, find_prev($0, 1, false), $0)} | {$0.space_fork_len == $0.vdf_count}
exit !{out(calc_next_challenge‥, @params, find_prev($0, 1, false), $0)} | {$0.space_fork_proofs == size($0.proof)}
exit {$0.height < @params.hardfork2_height} | {$0.proof_chain == calc_proof_chain(@params, find_prev($0, 1, false), $0.proof_hash)}
exit {$0.space_diff == find_prev($0, 1, false).space_diff} | {out(calc_next_challenge‥, @params, find_prev($0, 1, false), $0)}
exit {$0.space_fork_len == ($0.vdf_count + find_prev($0, 1, false).space_fork_len)} | {out(calc_next_challenge‥, @params, find_prev($0, 1, false), $0)}
exit {$0.space_fork_proofs == (find_prev($0, 1, false).space_fork_proofs + size($0.proof))} | {out(calc_next_challenge‥, @params, find_prev($0, 1, false), $0)}
at insert(%set<hash_t>, calc_proof_hash(elem($0.proof)))
at get_infusion(find_prev($0, 1, false), idx($0.vdf_count), 0)
at validate_diff_adjust($0.time_diff, find_prev($0, 1, false).time_diff)
at calc_next_challenge(@params, find_prev($0, 1, false), $0, false)
at get_challenge($0, 0, 0)
at verify_proof(elem($0.proof), get_challenge($0, 0, 0), out(get_challenge‥, $0, 0), $0.vdf_height)
fn mmx::Node::verify_proof sig=ProofOfSpace
each validate($0) ;; {$2} ;; {$0} ;; {is_valid($0)} ;; {$0.challenge == $1} ;; {$0.difficulty == $2}
each verify_proof_impl($0, $1, $2, $3) ;; {$2} ;; {$0} ;; {is_valid($0)} ;; {$0.challenge == $1} ;; {$0.difficulty == $2} ;; {check_plot_filter(@params, $1, $0.plot_id)} ;; {is<ProofOfSpaceOG>($0)}
each verify_proof_impl($0, $1, $2, $3) ;; {$2} ;; {$0} ;; {is_valid($0)} ;; {$0.challenge == $1} ;; {$0.difficulty == $2} ;; {check_plot_filter(@params, $1, $0.plot_id)} ;; !{$0} | !{is<ProofOfSpaceOG>($0)} ;; {is<ProofOfSpaceNFT>($0)}
raise !{$2}
raise {$2} ;; !{$0} | !{is_valid($0)}
raise {$2} ;; {$0} ;; {is_valid($0)} ;; !{$0.challenge == $1}
raise {$2} ;; {$0} ;; {is_valid($0)} ;; {$0.challenge == $1} ;; !{$0.difficulty == $2}
raise {$2} ;; {$0} ;; {is_valid($0)} ;; {$0.challenge == $1} ;; {$0.difficulty == $2} ;; !{check_plot_filter(@params, $1, $0.plot_id)}
raise {$2} ;; {$0} ;; {is_valid($0)} ;; {$0.challenge == $1} ;; {$0.difficulty == $2} ;; {check_plot_filter(@params, $1, $0.plot_id)} ;; !{$0} | !{is<ProofOfSpaceOG>($0)} ;; !{$0} | !{is<ProofOfSpaceNFT>($0)}
raise {$2} ;; {$0} ;; {is_valid($0)} ;; {$0.challenge == $1} ;; {$0.difficulty == $2} ;; {check_plot_filter(@params, $1, $0.plot_id)} ;; !{$0.score == get_proof_score(calc_proof_hash($0))}
exit {$0.challenge == $1}
exit {$0.difficulty == $2}
exit {$0.score == get_proof_score(calc_proof_hash($0))}
exit {$0}
exit {$2}
exit {check_plot_filter(@params, $1, $0.plot_id)}
exit {did validate($0)}
exit {did verify_proof_impl($0, $1, $2, $3)}
exit {is_valid($0)}
exit {is<ProofOfSpaceNFT>($0)} | {is<ProofOfSpaceOG>($0)}
at validate($0)
at verify_proof_impl($0, $1, $2, $3)
fn mmx::Node::verify_proof_impl
raise {$0.ksize < @params.min_ksize}
raise !{$0.ksize < @params.min_ksize} ;; {@params.max_ksize < $0.ksize}
raise !{$0.ksize < @params.min_ksize} ;; !{@params.max_ksize < $0.ksize} ;; !{check_proof_threshold(@params, $0.ksize, verify($0.proof_xs, get_plot_challenge($1, $0.plot_id), $0.plot_id, @params.plot_filter, @params.post_filter, $0.ksize, !{$3 < @params.hardfork1_height}), $2, !{$3 < @params.hardfork1_height})}
exit !{$0.ksize < @params.min_ksize}
exit !{@params.max_ksize < $0.ksize}
exit {check_proof_threshold(@params, $0.ksize, verify($0.proof_xs, get_plot_challenge($1, $0.plot_id), $0.plot_id, @params.plot_filter, @params.post_filter, $0.ksize, !{$3 < @params.hardfork1_height}), $2, !{$3 < @params.hardfork1_height})}
fn mmx::pos::compute_f1
never break(loop)
each at(%unsignedint[9], 0) = (($4 << $7) | idx((1 << $7)))
each memcpy((%unsignedint[9] + 1), data($5), size($5))
each gen_mem_array(data(%vector<unsignedint>), data(%hash_512_t), MEM_SIZE)
each memcpy(%unsignedchar[192], data(%hash_512_t), size(%hash_512_t))
each calc_mem_hash(data(%vector<unsignedint>), (%unsignedchar[192] + 64), MEM_HASH_ITER)
each memcpy(%unsignedint[16], data(%hash_512_t), size(%hash_512_t))
each at(%array<unsignedint,14>, idx(N_META)) = (at(%unsignedint[16], idx(N_META)) & u32(((1 << $6) + -1)))
each push_back($0, (($4 << $7) | idx((1 << $7)))) ;; {$0}
each push_back($1, (fold(0, (at(%unsignedint[16], idx(N_META)) ^ ~), N_META) & u32(((1 << $6) + -1))))
each push_back($2, %array<unsignedint,14>)
never throw …
value fold(0, (at(%unsignedint[16], idx(N_META)) ^ ~), N_META)
exit {did at(%array<unsignedint,14>, idx(N_META)) = (at(%unsignedint[16], idx(N_META)) & u32(((1 << $6) + -1)))}
exit {did at(%unsignedint[9], 0) = (($4 << $7) | idx((1 << $7)))}
exit {did push_back($1, (fold(0, (at(%unsignedint[16], idx(N_META)) ^ ~), N_META) & u32(((1 << $6) + -1))))}
exit !{$0} | {did push_back($0, (($4 << $7) | idx((1 << $7))))}
at at(%unsignedint[9], 0) = (($4 << $7) | idx((1 << $7)))
at gen_mem_array(data(%vector<unsignedint>), data(%hash_512_t), MEM_SIZE)
at calc_mem_hash(data(%vector<unsignedint>), (%unsignedchar[192] + 64), MEM_HASH_ITER)
at at(%array<unsignedint,14>, idx(N_META)) = (at(%unsignedint[16], idx(N_META)) & u32(((1 << $6) + -1)))
at lock_guard($3)
at push_back($0, (($4 << $7) | idx((1 << $7)))) ;; {$0}
at push_back($1, (fold(0, (at(%unsignedint[16], idx(N_META)) ^ ~), N_META) & u32(((1 << $6) + -1))))
at push_back($2, %array<unsignedint,14>)
at ctor:hash_512_t(%unsignedint[9], 36)
at ctor:hash_512_t(%unsignedchar[192], 192)
at memcpy((%unsignedint[9] + 1), data($5), size($5))
at memcpy(%unsignedchar[192], data(%hash_512_t), size(%hash_512_t))
at memcpy(%unsignedint[16], data(%hash_512_t), size(%hash_512_t))
at push_back($1, …) ;; {did lock_guard($3)}
at push_back($2, …) ;; {did lock_guard($3)}
at push_back($0, …) ;; {did lock_guard($3)}
fn mmx::pos::compute
each have_init = true ;; {7 < $3} ;; !{32 < $3} ;; {-1 < $4} ;; !{$3 < $4} ;; !{have_init}
each read_config("mmx_pos.remote_compute", remote_compute) ;; {7 < $3} ;; !{32 < $3} ;; {-1 < $4} ;; !{$3 < $4} ;; !{have_init}
each clear($1) ;; {7 < $3} ;; !{32 < $3} ;; {-1 < $4} ;; !{$3 < $4} ;; {remote_compute} ;; {$1}
each compute(new(ProofServerClient,default_delete<ProofServerClient>, "ProofServer"), $0, $2, $3, $4) ;; {7 < $3} ;; !{32 < $3} ;; {-1 < $4} ;; !{$3 < $4} ;; {remote_compute}
each insert($1, end($1), begin(elem(compute(new(ProofServerClient,default_delete<ProofServerClient>, "ProofServer"), $0, $2, $3, $4)).x_values), end(elem(compute(new(ProofServerClient,default_delete<ProofServerClient>, "ProofServer"), $0, $2, $3, $4)).x_values)) ;; {7 < $3} ;; !{32 < $3} ;; {-1 < $4} ;; !{$3 < $4} ;; {remote_compute} ;; {$1}
each push_back(%vector<pair<unsignedint,bytes_t<48>>>, elem(compute(new(ProofServerClient,default_delete<ProofServerClient>, "ProofServer"), $0, $2, $3, $4)).y, elem(compute(new(ProofServerClient,default_delete<ProofServerClient>, "ProofServer"), $0, $2, $3, $4)).meta) ;; {7 < $3} ;; !{32 < $3} ;; {-1 < $4} ;; !{$3 < $4} ;; {remote_compute}
each g_threads = new(ThreadPool, ite({hardware_concurrency()}, hardware_concurrency(), 16), 1024) ;; {7 < $3} ;; !{32 < $3} ;; {-1 < $4} ;; !{$3 < $4} ;; !{remote_compute} ;; {4 < $4} ;; !{g_threads}
each add_task(g_threads, lambda) ;; {7 < $3} ;; !{32 < $3} ;; {-1 < $4} ;; !{$3 < $4} ;; !{remote_compute} ;; {4 < $4}
each compute_f1(ite({$1}, %vector<unsignedint>, 0), %vector<unsignedint>, %vector<array<unsignedint,14>>, %mutex, elem(%set<unsignedint>), $2, $3, $4) ;; {7 < $3} ;; !{32 < $3} ;; {-1 < $4} ;; !{$3 < $4} ;; !{remote_compute} ;; {4 < $4}
each push_back(%vector<long>, add_task(g_threads, lambda)) ;; {7 < $3} ;; !{32 < $3} ;; {-1 < $4} ;; !{$3 < $4} ;; !{remote_compute} ;; {4 < $4}
each compute_f1(ite({$1}, %vector<unsignedint>, 0), %vector<unsignedint>, %vector<array<unsignedint,14>>, %mutex, elem(%set<unsignedint>), $2, $3, $4) ;; {7 < $3} ;; !{32 < $3} ;; {-1 < $4} ;; !{$3 < $4} ;; !{remote_compute} ;; !{4 < $4}
each sync(g_threads, %vector<long>) ;; {7 < $3} ;; !{32 < $3} ;; {-1 < $4} ;; !{$3 < $4} ;; !{remote_compute} ;; {4 < $4}
each clear(%vector<long>) ;; {7 < $3} ;; !{32 < $3} ;; {-1 < $4} ;; !{$3 < $4} ;; !{remote_compute} ;; {4 < $4}
each compute_full(%vector<unsignedint>, %vector<unsignedint>, %vector<array<unsignedint,14>>, $1, $2, $3) ;; {7 < $3} ;; !{32 < $3} ;; {-1 < $4} ;; !{$3 < $4} ;; !{remote_compute}
never break(compute(new(ProofServerClient,default_delete<ProofServerClient>, "ProofServer"), $0, $2, $3, $4))
never break(%set<unsignedint>)
raise !{7 < $3} | {32 < $3}
raise {7 < $3} ;; !{32 < $3} ;; !{-1 < $4} | {$3 < $4}
exit !{$3 < $4}
exit !{32 < $3}
exit {-1 < $4}
exit {7 < $3}
exit !{remote_compute} | {ret = %vector<pair<unsignedint,bytes_t<48>>>}
exit {remote_compute} | {ret = compute_full(%vector<unsignedint>, %vector<unsignedint>, %vector<array<unsignedint,14>>, $1, $2, $3)}
exit !{remote_compute} | {did compute(new(ProofServerClient,default_delete<ProofServerClient>, "ProofServer"), $0, $2, $3, $4)}
exit !{remote_compute} | {did push_back(%vector<pair<unsignedint,bytes_t<48>>>, elem(compute(new(ProofServerClient,default_delete<ProofServerClient>, "ProofServer"), $0, $2, $3, $4)).y, elem(compute(new(ProofServerClient,default_delete<ProofServerClient>, "ProofServer"), $0, $2, $3, $4)).meta)}
exit !{remote_compute} | {ret = %vector<pair<unsignedint,bytes_t<48>>>}
exit {did compute_f1(ite({$1}, %vector<unsignedint>, 0), %vector<unsignedint>, %vector<array<unsignedint,14>>, %mutex, elem(%set<unsignedint>), $2, $3, $4)} | {remote_compute}
exit {did compute_full(%vector<unsignedint>, %vector<unsignedint>, %vector<array<unsignedint,14>>, $1, $2, $3)} | {remote_compute}
exit {did have_init = true} | {have_init}
exit {did read_config("mmx_pos.remote_compute", remote_compute)} | {have_init}
exit {remote_compute} | {ret = compute_full(%vector<unsignedint>, %vector<unsignedint>, %vector<array<unsignedint,14>>, $1, $2, $3)}
exit !{4 < $4} | {did clear(%vector<long>)} | {remote_compute}
exit !{4 < $4} | {did sync(g_threads, %vector<long>)} | {remote_compute}
exit !{4 < $4} | {did add_task(g_threads, lambda)} | {empty(%set<unsignedint>)} | {remote_compute}
exit !{4 < $4} | {did g_threads = new(ThreadPool, ite({hardware_concurrency()}, hardware_concurrency(), 16), 1024)} | {g_threads} | {remote_compute}
exit !{4 < $4} | {did push_back(%vector<long>, add_task(g_threads, lambda))} | {empty(%set<unsignedint>)} | {remote_compute}
at lock_guard(g_mutex)
at read_config("mmx_pos.remote_compute", remote_compute) ;; {did lock_guard(g_mutex)}
at have_init = true ;; {did lock_guard(g_mutex)}
at have_init = true ;; !{have_init} ;; !{have_init}
at read_config("mmx_pos.remote_compute", remote_compute) ;; !{have_init} ;; !{have_init}
at clear($1) ;; {remote_compute} ;; {$1}
at compute(new(ProofServerClient,default_delete<ProofServerClient>, "ProofServer"), $0, $2, $3, $4) ;; {remote_compute}
at insert($1, end($1), begin(elem(compute(new(ProofServerClient,default_delete<ProofServerClient>, "ProofServer"), $0, $2, $3, $4)).x_values), end(elem(compute(new(ProofServerClient,default_delete<ProofServerClient>, "ProofServer"), $0, $2, $3, $4)).x_values)) ;; {remote_compute} ;; {$1}
at push_back(%vector<pair<unsignedint,bytes_t<48>>>, elem(compute(new(ProofServerClient,default_delete<ProofServerClient>, "ProofServer"), $0, $2, $3, $4)).y, elem(compute(new(ProofServerClient,default_delete<ProofServerClient>, "ProofServer"), $0, $2, $3, $4)).meta) ;; {remote_compute}
at g_threads = new(ThreadPool, ite({hardware_concurrency()}, hardware_concurrency(), 16), 1024) ;; !{remote_compute} ;; {4 < $4} ;; !{g_threads}
at reserve(%vector<unsignedint>, (size(%set<unsignedint>) << $4)) ;; !{remote_compute}
at reserve(%vector<array<unsignedint,14>>, (size(%set<unsignedint>) << $4)) ;; !{remote_compute}
at add_task(g_threads, lambda) ;; !{remote_compute} ;; {4 < $4}
at compute_f1(ite({$1}, %vector<unsignedint>, 0), %vector<unsignedint>, %vector<array<unsignedint,14>>, %mutex, elem(%set<unsignedint>), $2, $3, $4) ;; !{remote_compute}
at push_back(%vector<long>, add_task(g_threads, lambda)) ;; !{remote_compute} ;; {4 < $4}
at sync(g_threads, %vector<long>) ;; !{remote_compute} ;; {4 < $4}
at clear(%vector<long>) ;; !{remote_compute} ;; {4 < $4}
at compute_full(%vector<unsignedint>, %vector<unsignedint>, %vector<array<unsignedint,14>>, $1, $2, $3) ;; !{remote_compute}
fn mmx::pos::calc_quality
never throw …
exit {ret = ctor(hash_t, (("proof_quality" ++ $0) ++ $1))}
fn mmx::pos::check_post_filter
never throw …
true !{(to_uint256(ctor(hash_t, (("post_filter" ++ $0) ++ $1))) >> (-$2 + 256))}
false {(to_uint256(ctor(hash_t, (("post_filter" ++ $0) ++ $1))) >> (-$2 + 256))}
fn mmx::pos::verify
each compute($0, %vector<unsignedint>, $2, $5, 0) ;; {size($0) == w64((1 << (N_TABLE + -1)))}
at ctor:bytes_t<4>(data($1), 4)
raise !{size($0) == w64((1 << (N_TABLE + -1)))}
raise {size($0) == w64((1 << (N_TABLE + -1)))} ;; {empty(compute($0, %vector<unsignedint>, $2, $5, 0))}
raise {size($0) == w64((1 << (N_TABLE + -1)))} ;; !{empty(compute($0, %vector<unsignedint>, $2, $5, 0))} ;; {1 < size(compute($0, %vector<unsignedint>, $2, $5, 0))}
raise {size($0) == w64((1 << (N_TABLE + -1)))} ;; !{empty(compute($0, %vector<unsignedint>, $2, $5, 0))} ;; !{1 < size(compute($0, %vector<unsignedint>, $2, $5, 0))} ;; !{at(compute($0, %vector<unsignedint>, $2, $5, 0), 0).first < ((to_uint(ctor(bytes_t<4>, data($1), 4), false) & u32(((1 << $5) + -1))) + w64((1 << $3)))} | {at(compute($0, %vector<unsignedint>, $2, $5, 0), 0).first < (to_uint(ctor(bytes_t<4>, data($1), 4), false) & u32(((1 << $5) + -1)))}
raise {size($0) == w64((1 << (N_TABLE + -1)))} ;; !{empty(compute($0, %vector<unsignedint>, $2, $5, 0))} ;; !{1 < size(compute($0, %vector<unsignedint>, $2, $5, 0))} ;; !{at(compute($0, %vector<unsignedint>, $2, $5, 0), 0).first < (to_uint(ctor(bytes_t<4>, data($1), 4), false) & u32(((1 << $5) + -1)))} ;; {at(compute($0, %vector<unsignedint>, $2, $5, 0), 0).first < ((to_uint(ctor(bytes_t<4>, data($1), 4), false) & u32(((1 << $5) + -1))) + w64((1 << $3)))} ;; !{$0 == %vector<unsignedint>}
raise {size($0) == w64((1 << (N_TABLE + -1)))} ;; !{empty(compute($0, %vector<unsignedint>, $2, $5, 0))} ;; !{1 < size(compute($0, %vector<unsignedint>, $2, $5, 0))} ;; !{at(compute($0, %vector<unsignedint>, $2, $5, 0), 0).first < (to_uint(ctor(bytes_t<4>, data($1), 4), false) & u32(((1 << $5) + -1)))} ;; {at(compute($0, %vector<unsignedint>, $2, $5, 0), 0).first < ((to_uint(ctor(bytes_t<4>, data($1), 4), false) & u32(((1 << $5) + -1))) + w64((1 << $3)))} ;; {$0 == %vector<unsignedint>} ;; {$6} ;; !{check_post_filter($1, at(compute($0, %vector<unsignedint>, $2, $5, 0), 0).second, $4)}
exit !{1 < size(compute($0, %vector<unsignedint>, $2, $5, 0))}
exit !{at(compute($0, %vector<unsignedint>, $2, $5, 0), 0).first < (to_uint(ctor(bytes_t<4>, data($1), 4), false) & u32(((1 << $5) + -1)))}
exit !{empty(compute($0, %vector<unsignedint>, $2, $5, 0))}
exit {$0 == %vector<unsignedint>}
exit {at(compute($0, %vector<unsignedint>, $2, $5, 0), 0).first < ((to_uint(ctor(bytes_t<4>, data($1), 4), false) & u32(((1 << $5) + -1))) + w64((1 << $3)))}
exit {did compute($0, %vector<unsignedint>, $2, $5, 0)}
exit !{$6} | {ret = calc_proof_hash($1, %vector<unsignedint>)}
exit {$6} | {ret = calc_quality($1, at(compute($0, %vector<unsignedint>, $2, $5, 0), 0).second)}
exit {size($0) == w64((1 << (N_TABLE + -1)))}
at compute($0, %vector<unsignedint>, $2, $5, 0)
fn mmx::pos::compute_full
at sort(begin(%vector<pair<unsignedint,unsignedint>>), end(%vector<pair<unsignedint,unsignedint>>), by(!{$cb0.first == $cb1.first} | {at(fold($2, %vector<array<unsignedint,14>>), $cb0.second) < at(fold($2, %vector<array<unsignedint,14>>), $cb1.second)} && {$cb0 < $cb1} | {$cb0.first == $cb1.first} && {$cb0 < $cb1} | {at(fold($2, %vector<array<unsignedint,14>>), $cb0.second) < at(fold($2, %vector<array<unsignedint,14>>), $cb1.second)})) ;; {size($1) == size($2)}
at at(%unsignedint[28], idx(N_META)) = at(at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second), idx(N_META)) ;; {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
at at(%unsignedint[28], (N_META + idx(N_META))) = at(at(fold($2, %vector<array<unsignedint,14>>), at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).second), idx(N_META)) ;; {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
never data(%hash_512_t) ;; {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
never size(%hash_512_t) ;; {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
at memcpy(%unsignedint[16], data(%hash_512_t), size(%hash_512_t)) ;; {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
at at(%array<unsignedint,14>, idx(N_META)) = (at(%unsignedint[16], idx(N_META)) & u32(((1 << $5) + -1))) ;; {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
at push_back(%vector<pair<unsignedint,unsignedint>>, (fold(0, (at(%unsignedint[16], idx(N_META)) ^ ~), N_META) & u32(((1 << $5) + -1))), size(%vector<array<unsignedint,14>>)) ;; {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
at push_back(at(%vector<vector<pair<unsignedint,unsignedint>>,allocator<vector<pair<unsignedint,unsignedint>>>>, fold(2, (~ + 1))), elem(%vector<pair<unsignedint,unsignedint>>).second, at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).second) ;; {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first} ;; {$3}
at push_back(%vector<array<unsignedint,14>>, %array<unsignedint,14>) ;; {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
at %vector<pair<unsignedint,unsignedint>> = %vector<pair<unsignedint,unsignedint>> ;; {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))} ;; !{empty(%vector<pair<unsignedint,unsignedint>>)}
at insert(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second)) ;; {size($1) == size($2)}
at push_back(%vector<pair<unsignedint,bytes_t<48>>>, elem(%vector<pair<unsignedint,unsignedint>>).first, ctor(bytes_t<48>, data(at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second)), META_BYTES_OUT)) ;; {size($1) == size($2)} ;; {inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))}
at push_back(%vector<unsignedint>, elem(%vector<pair<unsignedint,unsignedint>>).second) ;; {size($1) == size($2)} ;; {inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} ;; {$3} ;; {size($0) == size($1)}
at push_back(%vector<unsignedint>, at(at(%vector<vector<pair<unsignedint,unsignedint>>,allocator<vector<pair<unsignedint,unsignedint>>>>, fold(N_TABLE, (~ + -1))), elem(%vector<unsignedint>)).first) ;; {size($1) == size($2)} ;; {inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} ;; {$3} ;; {size($0) == size($1)} ;; {1 < fold(N_TABLE, (~ + -1))}
at push_back(%vector<unsignedint>, at(at(%vector<vector<pair<unsignedint,unsignedint>>,allocator<vector<pair<unsignedint,unsignedint>>>>, fold(N_TABLE, (~ + -1))), elem(%vector<unsignedint>)).second) ;; {size($1) == size($2)} ;; {inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} ;; {$3} ;; {size($0) == size($1)} ;; {1 < fold(N_TABLE, (~ + -1))}
at %vector<unsignedint> = %vector<unsignedint> ;; {size($1) == size($2)} ;; {inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} ;; {$3} ;; {size($0) == size($1)} ;; {1 < fold(N_TABLE, (~ + -1))}
at push_back($3, at($0, elem(%vector<unsignedint>))) ;; {size($1) == size($2)} ;; {inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} ;; {$3} ;; {size($0) == size($1)}
each push_back(%vector<pair<unsignedint,unsignedint>>, elem($1), idx($1)) ;; {size($1) == size($2)} ;; {idx($1) < size($1)}
each sort(begin(%vector<pair<unsignedint,unsignedint>>), end(%vector<pair<unsignedint,unsignedint>>), by(!{$cb0.first == $cb1.first} | {at(fold($2, %vector<array<unsignedint,14>>), $cb0.second) < at(fold($2, %vector<array<unsignedint,14>>), $cb1.second)} && {$cb0 < $cb1} | {$cb0.first == $cb1.first} && {$cb0 < $cb1} | {at(fold($2, %vector<array<unsignedint,14>>), $cb0.second) < at(fold($2, %vector<array<unsignedint,14>>), $cb1.second)})) ;; {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))}
each at(%unsignedint[28], idx(N_META)) = at(at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second), idx(N_META)) ;; {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
each at(%unsignedint[28], (N_META + idx(N_META))) = at(at(fold($2, %vector<array<unsignedint,14>>), at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).second), idx(N_META)) ;; {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
each memcpy(%unsignedint[16], data(%hash_512_t), size(%hash_512_t)) ;; {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
each at(%array<unsignedint,14>, idx(N_META)) = (at(%unsignedint[16], idx(N_META)) & u32(((1 << $5) + -1))) ;; {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
each push_back(%vector<pair<unsignedint,unsignedint>>, (fold(0, (at(%unsignedint[16], idx(N_META)) ^ ~), N_META) & u32(((1 << $5) + -1))), size(%vector<array<unsignedint,14>>)) ;; {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
each push_back(at(%vector<vector<pair<unsignedint,unsignedint>>,allocator<vector<pair<unsignedint,unsignedint>>>>, fold(2, (~ + 1))), elem(%vector<pair<unsignedint,unsignedint>>).second, at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).second) ;; {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first} ;; {$3}
each push_back(%vector<array<unsignedint,14>>, %array<unsignedint,14>) ;; {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
each %vector<pair<unsignedint,unsignedint>> = %vector<pair<unsignedint,unsignedint>> ;; {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))} ;; !{empty(%vector<pair<unsignedint,unsignedint>>)}
each clear($3) ;; {size($1) == size($2)} ;; {$3}
each sort(begin(%vector<pair<unsignedint,unsignedint>>), end(%vector<pair<unsignedint,unsignedint>>), by(!{$cb0.first == $cb1.first} | {at(fold($2, %vector<array<unsignedint,14>>), $cb0.second) < at(fold($2, %vector<array<unsignedint,14>>), $cb1.second)} && {$cb0 < $cb1} | {$cb0.first == $cb1.first} && {$cb0 < $cb1} | {at(fold($2, %vector<array<unsignedint,14>>), $cb0.second) < at(fold($2, %vector<array<unsignedint,14>>), $cb1.second)})) ;; {size($1) == size($2)}
each insert(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second)) ;; {size($1) == size($2)}
each push_back(%vector<pair<unsignedint,bytes_t<48>>>, elem(%vector<pair<unsignedint,unsignedint>>).first, ctor(bytes_t<48>, data(at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second)), META_BYTES_OUT)) ;; {size($1) == size($2)} ;; {inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))}
each push_back(%vector<unsignedint>, elem(%vector<pair<unsignedint,unsignedint>>).second) ;; {size($1) == size($2)} ;; {inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} ;; {$3} ;; {size($0) == size($1)}
each push_back(%vector<unsignedint>, at(at(%vector<vector<pair<unsignedint,unsignedint>>,allocator<vector<pair<unsignedint,unsignedint>>>>, fold(N_TABLE, (~ + -1))), elem(%vector<unsignedint>)).first) ;; {size($1) == size($2)} ;; {inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} ;; {$3} ;; {size($0) == size($1)} ;; {1 < fold(N_TABLE, (~ + -1))}
each push_back(%vector<unsignedint>, at(at(%vector<vector<pair<unsignedint,unsignedint>>,allocator<vector<pair<unsignedint,unsignedint>>>>, fold(N_TABLE, (~ + -1))), elem(%vector<unsignedint>)).second) ;; {size($1) == size($2)} ;; {inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} ;; {$3} ;; {size($0) == size($1)} ;; {1 < fold(N_TABLE, (~ + -1))}
each %vector<unsignedint> = %vector<unsignedint> ;; {size($1) == size($2)} ;; {inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} ;; {$3} ;; {size($0) == size($1)} ;; {1 < fold(N_TABLE, (~ + -1))}
each push_back($3, at($0, elem(%vector<unsignedint>))) ;; {size($1) == size($2)} ;; {inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} ;; {$3} ;; {size($0) == size($1)}
never break($1)
never break(%vector<pair<unsignedint,unsignedint>>)
never break(%vector<unsignedint>)
at ctor:bytes_t<48>(data(at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second)), META_BYTES_OUT)
raise !{size($1) == size($2)}
raise {size($1) == size($2)} ;; !{N_TABLE < fold(2, (~ + 1))} ;; {empty(%vector<pair<unsignedint,unsignedint>>)}
value fold(2, (~ + 1))
value fold(N_TABLE, (~ + -1))
value fold($2, %vector<array<unsignedint,14>>)
value fold(0, (at(%unsignedint[16], idx(N_META)) ^ ~), N_META)
exit !{idx($1) < size($1)}
exit {N_TABLE < fold(2, (~ + 1))}
exit {did insert(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))}
exit {did push_back(%vector<pair<unsignedint,unsignedint>>, elem($1), idx($1))}
exit {did sort(begin(%vector<pair<unsignedint,unsignedint>>), end(%vector<pair<unsignedint,unsignedint>>), by(!{$cb0.first == $cb1.first} | {at(fold($2, %vector<array<unsignedint,14>>), $cb0.second) < at(fold($2, %vector<array<unsignedint,14>>), $cb1.second)} && {$cb0 < $cb1} | {$cb0.first == $cb1.first} && {$cb0 < $cb1} | {at(fold($2, %vector<array<unsignedint,14>>), $cb0.second) < at(fold($2, %vector<array<unsignedint,14>>), $cb1.second)}))}
exit {ret = %vector<pair<unsignedint,bytes_t<48>>>}
exit {size($1) == size($2)}
exit !{$3} | {did clear($3)}
exit !{(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first} | {did at(%array<unsignedint,14>, idx(N_META)) = (at(%unsignedint[16], idx(N_META)) & u32(((1 << $5) + -1)))}
exit !{(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first} | {did at(%unsignedint[28], (N_META + idx(N_META))) = at(at(fold($2, %vector<array<unsignedint,14>>), at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).second), idx(N_META))}
exit !{(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first} | {did at(%unsignedint[28], idx(N_META)) = at(at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second), idx(N_META))}
exit !{(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first} | {did push_back(%vector<array<unsignedint,14>>, %array<unsignedint,14>)}
exit !{(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first} | {did push_back(%vector<pair<unsignedint,unsignedint>>, (fold(0, (at(%unsignedint[16], idx(N_META)) ^ ~), N_META) & u32(((1 << $5) + -1))), size(%vector<array<unsignedint,14>>))}
exit !{inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} | {did push_back(%vector<pair<unsignedint,bytes_t<48>>>, elem(%vector<pair<unsignedint,unsignedint>>).first, ctor(bytes_t<48>, data(at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second)), META_BYTES_OUT))}
exit !{$3} | !{(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first} | {did push_back(at(%vector<vector<pair<unsignedint,unsignedint>>,allocator<vector<pair<unsignedint,unsignedint>>>>, fold(2, (~ + 1))), elem(%vector<pair<unsignedint,unsignedint>>).second, at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).second)}
exit !{elem(%vector<pair<unsignedint,unsignedint>>).first < at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first} | {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first} | {did break(loop)}
exit !{$3} | !{1 < fold(N_TABLE, (~ + -1))} | !{inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} | !{size($0) == size($1)}
exit !{$3} | !{inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} | !{size($0) == size($1)} | {did push_back($3, at($0, elem(%vector<unsignedint>)))}
exit !{$3} | !{inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} | !{size($0) == size($1)} | {did push_back(%vector<unsignedint>, at(at(%vector<vector<pair<unsignedint,unsignedint>>,allocator<vector<pair<unsignedint,unsignedint>>>>, fold(N_TABLE, (~ + -1))), elem(%vector<unsignedint>)).first)}
exit !{$3} | !{inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} | !{size($0) == size($1)} | {did push_back(%vector<unsignedint>, at(at(%vector<vector<pair<unsignedint,unsignedint>>,allocator<vector<pair<unsignedint,unsignedint>>>>, fold(N_TABLE, (~ + -1))), elem(%vector<unsignedint>)).second)}
exit !{$3} | !{inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} | !{size($0) == size($1)} | {did push_back(%vector<unsignedint>, elem(%vector<pair<unsignedint,unsignedint>>).second)}
at reserve(%vector<pair<unsignedint,unsignedint>>, size($1))
at push_back(%vector<pair<unsignedint,unsignedint>>, elem($1), idx($1)) ;; {idx($1) < size($1)}
at sort(begin(%vector<pair<unsignedint,unsignedint>>), end(%vector<pair<unsignedint,unsignedint>>), by(!{$cb0.first == $cb1.first} | {at(fold($2, %vector<array<unsignedint,14>>), $cb0.second) < at(fold($2, %vector<array<unsignedint,14>>), $cb1.second)} && {$cb0 < $cb1} | {$cb0.first == $cb1.first} && {$cb0 < $cb1} | {at(fold($2, %vector<array<unsignedint,14>>), $cb0.second) < at(fold($2, %vector<array<unsignedint,14>>), $cb1.second)}))
at at(%unsignedint[28], idx(N_META)) = at(at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second), idx(N_META)) ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
at at(%unsignedint[28], (N_META + idx(N_META))) = at(at(fold($2, %vector<array<unsignedint,14>>), at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).second), idx(N_META)) ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
at at(%array<unsignedint,14>, idx(N_META)) = (at(%unsignedint[16], idx(N_META)) & u32(((1 << $5) + -1))) ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
at push_back(%vector<pair<unsignedint,unsignedint>>, (fold(0, (at(%unsignedint[16], idx(N_META)) ^ ~), N_META) & u32(((1 << $5) + -1))), size(%vector<array<unsignedint,14>>)) ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
at push_back(at(%vector<vector<pair<unsignedint,unsignedint>>,allocator<vector<pair<unsignedint,unsignedint>>>>, fold(2, (~ + 1))), elem(%vector<pair<unsignedint,unsignedint>>).second, at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).second) ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first} ;; {$3}
at push_back(%vector<array<unsignedint,14>>, %array<unsignedint,14>) ;; !{N_TABLE < fold(2, (~ + 1))} ;; {(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
never break(loop) ;; !{N_TABLE < fold(2, (~ + 1))} ;; !{(elem(%vector<pair<unsignedint,unsignedint>>).first + 1) == at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first} ;; {elem(%vector<pair<unsignedint,unsignedint>>).first < at(%vector<pair<unsignedint,unsignedint>>, idx(size(%vector<pair<unsignedint,unsignedint>>), (idx(%vector<pair<unsignedint,unsignedint>>) + 1))).first}
at %vector<pair<unsignedint,unsignedint>> = %vector<pair<unsignedint,unsignedint>> ;; !{N_TABLE < fold(2, (~ + 1))} ;; !{empty(%vector<pair<unsignedint,unsignedint>>)}
at clear($3) ;; {$3}
at insert(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))
at push_back(%vector<pair<unsignedint,bytes_t<48>>>, elem(%vector<pair<unsignedint,unsignedint>>).first, ctor(bytes_t<48>, data(at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second)), META_BYTES_OUT)) ;; {inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))}
at push_back(%vector<unsignedint>, elem(%vector<pair<unsignedint,unsignedint>>).second) ;; {inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} ;; {$3} ;; {size($0) == size($1)}
at push_back(%vector<unsignedint>, at(at(%vector<vector<pair<unsignedint,unsignedint>>,allocator<vector<pair<unsignedint,unsignedint>>>>, fold(N_TABLE, (~ + -1))), elem(%vector<unsignedint>)).first) ;; {inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} ;; {$3} ;; {size($0) == size($1)} ;; {1 < fold(N_TABLE, (~ + -1))}
at push_back(%vector<unsignedint>, at(at(%vector<vector<pair<unsignedint,unsignedint>>,allocator<vector<pair<unsignedint,unsignedint>>>>, fold(N_TABLE, (~ + -1))), elem(%vector<unsignedint>)).second) ;; {inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} ;; {$3} ;; {size($0) == size($1)} ;; {1 < fold(N_TABLE, (~ + -1))}
at %vector<unsignedint> = %vector<unsignedint> ;; {inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} ;; {$3} ;; {size($0) == size($1)} ;; {1 < fold(N_TABLE, (~ + -1))}
at push_back($3, at($0, elem(%vector<unsignedint>))) ;; {inserted(%set<array<unsignedint,14>>, at(fold($2, %vector<array<unsignedint,14>>), elem(%vector<pair<unsignedint,unsignedint>>).second))} ;; {$3} ;; {size($0) == size($1)}
at ctor:hash_512_t(%unsignedint[28], 112)
at memcpy(%unsignedint[16], data(%hash_512_t), size(%hash_512_t))
