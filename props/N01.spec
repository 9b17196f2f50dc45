tus src/Node_validate.cpp
fn mmx::Node::validate sig=Block
never break(loop)
each validate($0) ;; {is_valid($0, @params)}
each insert(%set<pair<addr_t,addr_t>>, elem($0.tx_list).sender, ctor(addr_t)) ;; {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr} ;; {elem($0.tx_list).sender}
each insert(%set<pair<addr_t,addr_t>>, elem(elem($0.tx_list).inputs).address, elem(elem($0.tx_list).inputs).contract) ;; {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr}
each insert(%unordered_set<addr_t>, elem($0.tx_list).id) ;; {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr} ;; {elem($0.tx_list)} ;; {elem($0.tx_list).sender} ;; {elem($0.tx_list).exec_result}
each find(%balance_cache_t, elem($0.tx_list).sender, ctor(addr_t)) ;; {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr} ;; {elem($0.tx_list)} ;; {elem($0.tx_list).sender} ;; {elem($0.tx_list).exec_result} ;; {inserted(%unordered_set<addr_t>, elem($0.tx_list).id)}
each find(%balance_cache_t, elem($0.tx_list).sender, ctor(addr_t)) = (-elem($0.tx_list).exec_result.total_fee + find(%balance_cache_t, elem($0.tx_list).sender, ctor(addr_t))) ;; {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr} ;; {elem($0.tx_list)} ;; {elem($0.tx_list).sender} ;; {elem($0.tx_list).exec_result} ;; {inserted(%unordered_set<addr_t>, elem($0.tx_list).id)} ;; {has(%balance_cache_t, elem($0.tx_list).sender)} ;; !{find(%balance_cache_t, elem($0.tx_list).sender, ctor(addr_t)) < elem($0.tx_list).exec_result.total_fee}
each find(%balance_cache_t, elem(elem($0.tx_list).inputs).address, elem(elem($0.tx_list).inputs).contract) ;; {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr} ;; {elem($0.tx_list)} ;; {elem($0.tx_list).sender} ;; {elem($0.tx_list).exec_result} ;; {inserted(%unordered_set<addr_t>, elem($0.tx_list).id)} ;; {has(%balance_cache_t, elem($0.tx_list).sender)} ;; !{find(%balance_cache_t, elem($0.tx_list).sender, ctor(addr_t)) < elem($0.tx_list).exec_result.total_fee} ;; !{elem($0.tx_list).exec_result.did_fail}
each find(%balance_cache_t, elem(elem($0.tx_list).inputs).address, elem(elem($0.tx_list).inputs).contract) = (-elem(elem($0.tx_list).inputs).amount + find(%balance_cache_t, elem(elem($0.tx_list).inputs).address, elem(elem($0.tx_list).inputs).contract)) ;; {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr} ;; {elem($0.tx_list)} ;; {elem($0.tx_list).sender} ;; {elem($0.tx_list).exec_result} ;; {inserted(%unordered_set<addr_t>, elem($0.tx_list).id)} ;; {has(%balance_cache_t, elem($0.tx_list).sender)} ;; !{find(%balance_cache_t, elem($0.tx_list).sender, ctor(addr_t)) < elem($0.tx_list).exec_result.total_fee} ;; !{elem($0.tx_list).exec_result.did_fail} ;; {has(%balance_cache_t, elem(elem($0.tx_list).inputs).address)} ;; !{find(%balance_cache_t, elem(elem($0.tx_list).inputs).address, elem(elem($0.tx_list).inputs).contract) < elem(elem($0.tx_list).inputs).amount}
each prepare_context(new_exec_context($0.height), elem($0.tx_list)) ;; {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr} ;; {elem($0.tx_list)} ;; {elem($0.tx_list).sender} ;; {elem($0.tx_list).exec_result} ;; {inserted(%unordered_set<addr_t>, elem($0.tx_list).id)} ;; {has(%balance_cache_t, elem($0.tx_list).sender)} ;; !{find(%balance_cache_t, elem($0.tx_list).sender, ctor(addr_t)) < elem($0.tx_list).exec_result.total_fee}
each add_task(@threads, lambda) ;; {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr}
each wait(new_exec_context($0.height), elem($0.tx_list).id) ;; {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr}
each signal(new_exec_context($0.height), elem($0.tx_list).id) ;; {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr}
each sync(@threads) ;; {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr}
never break(elem($0.tx_list).inputs)
never break($0.tx_list)
at ctor:balance_cache_t(@balance_table)
raise !{is_valid($0, @params)}
raise {is_valid($0, @params)} ;; !{find_prev($0, 1, false)}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; !{@state_hash == find_prev($0, 1, false).hash}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; {$0.version}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; !{$0.height == (find_prev($0, 1, false).height + 1)}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; {(100 * @params.challenge_interval) < $0.space_fork_len}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; !{-1 < $0.time_stamp}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; {($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; {($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.space_diff} | {$0.time_diff < @params.time_diff_divider}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; {@params.max_block_size < $0.static_cost}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; {@params.max_block_cost < $0.total_cost}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; !{$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{-2 < $0.reward_vote} | {1 < $0.reward_vote}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; {$0.reward_addr} | {$0.reward_contract} ;; {$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; {$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_addr} | !{$0.reward_contract == at($0.proof, 0).contract} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; {$0.reward_addr} ;; {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; {at($0.proof, 0)} ;; {at($0.proof, 0).contract} ;; !{$0.reward_addr == get_plot_nft_target(at($0.proof, 0).contract, $0.reward_account)} | !{$0.reward_addr}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{($0.height % @params.vdf_reward_interval)} ;; !{$0.vdf_reward_payout == get_vdf_reward_winner($0)}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; {($0.height % @params.vdf_reward_interval)} ;; {$0.vdf_reward_payout}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{($0.height % @params.reward_adjust_interval)} ;; !{$0.base_reward == calc_new_base_reward(@params, find_prev($0, 1, false))}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{($0.height % @params.reward_adjust_interval)} ;; {$0.base_reward == calc_new_base_reward(@params, find_prev($0, 1, false))} ;; !{$0.reward_vote == $0.reward_vote_sum}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{($0.height % @params.reward_adjust_interval)} ;; {$0.base_reward == calc_new_base_reward(@params, find_prev($0, 1, false))} ;; {$0.reward_vote == $0.reward_vote_sum} ;; !{$0.reward_vote_count == 1} | !{$0.reward_vote} ;; {$0.reward_vote_count} | {$0.reward_vote}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; {($0.height % @params.reward_adjust_interval)} ;; !{$0.base_reward == find_prev($0, 1, false).base_reward}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; {($0.height % @params.reward_adjust_interval)} ;; {$0.base_reward == find_prev($0, 1, false).base_reward} ;; !{$0.reward_vote_sum == ($0.reward_vote + find_prev($0, 1, false).reward_vote_sum)}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; {($0.height % @params.reward_adjust_interval)} ;; {$0.base_reward == find_prev($0, 1, false).base_reward} ;; {$0.reward_vote_sum == ($0.reward_vote + find_prev($0, 1, false).reward_vote_sum)} ;; !{$0.reward_vote_count == (find_prev($0, 1, false).reward_vote_count + ite({$0.reward_vote}, 1, 0))}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; {$0.height < @params.transaction_activation} ;; {$0.tx_count}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; !{$0.project_addr == find_prev($0, 1, false).project_addr}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr} ;; !{elem($0.tx_list)}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr} ;; {elem($0.tx_list)} ;; !{elem($0.tx_list).sender}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr} ;; {elem($0.tx_list)} ;; {elem($0.tx_list).sender} ;; !{elem($0.tx_list).exec_result}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr} ;; {elem($0.tx_list)} ;; {elem($0.tx_list).sender} ;; {elem($0.tx_list).exec_result} ;; !{inserted(%unordered_set<addr_t>, elem($0.tx_list).id)}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr} ;; {elem($0.tx_list)} ;; {elem($0.tx_list).sender} ;; {elem($0.tx_list).exec_result} ;; {inserted(%unordered_set<addr_t>, elem($0.tx_list).id)} ;; {fold(0, elem($0.tx_list), $0.tx_list)} ;; {fold(0, elem($0.tx_list), $0.tx_list).fee_ratio < elem($0.tx_list).fee_ratio}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr} ;; {elem($0.tx_list)} ;; {elem($0.tx_list).sender} ;; {elem($0.tx_list).exec_result} ;; {inserted(%unordered_set<addr_t>, elem($0.tx_list).id)} ;; !{has(%balance_cache_t, elem($0.tx_list).sender)} | {find(%balance_cache_t, elem($0.tx_list).sender, ctor(addr_t)) < elem($0.tx_list).exec_result.total_fee}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr} ;; {elem($0.tx_list)} ;; {elem($0.tx_list).sender} ;; {elem($0.tx_list).exec_result} ;; {inserted(%unordered_set<addr_t>, elem($0.tx_list).id)} ;; {has(%balance_cache_t, elem($0.tx_list).sender)} ;; !{find(%balance_cache_t, elem($0.tx_list).sender, ctor(addr_t)) < elem($0.tx_list).exec_result.total_fee} ;; !{elem($0.tx_list).exec_result.did_fail} ;; !{has(%balance_cache_t, elem(elem($0.tx_list).inputs).address)} | {find(%balance_cache_t, elem(elem($0.tx_list).inputs).address, elem(elem($0.tx_list).inputs).contract) < elem(elem($0.tx_list).inputs).amount}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr} ;; {u32(size(@params.min_fee_ratio))} ;; !{fold(rbegin($0.tx_list), (~ + 1)) == rend($0.tx_list)} ;; !{fold(fold(0, fold(~, (~? + 1))), (~ + 1)) < u32(size(@params.min_fee_ratio))}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr} ;; {u32(size(@params.min_fee_ratio))} ;; !{fold(rbegin($0.tx_list), (~ + 1)) == rend($0.tx_list)} ;; {fold(fold(0, fold(~, (~? + 1))), (~ + 1)) < u32(size(@params.min_fee_ratio))} ;; {fold(rbegin($0.tx_list), (~ + 1)).fee_ratio < (1024 * at(@params.min_fee_ratio, fold(fold(0, fold(~, (~? + 1))), (~ + 1))))}
raise {is_valid($0, @params)} ;; {find_prev($0, 1, false)} ;; {@state_hash == find_prev($0, 1, false).hash} ;; !{$0.version} ;; {$0.height == (find_prev($0, 1, false).height + 1)} ;; !{(100 * @params.challenge_interval) < $0.space_fork_len} ;; {-1 < $0.time_stamp} ;; !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)} ;; !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)} ;; !{$0.time_diff < @params.time_diff_divider} ;; {$0.space_diff} ;; !{@params.max_block_size < $0.static_cost} ;; !{@params.max_block_cost < $0.total_cost} ;; {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))} ;; !{1 < $0.reward_vote} ;; {-2 < $0.reward_vote} ;; !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.reward_contract} | {$0.reward_addr} ;; !{$0.reward_contract} | {is<ProofOfSpaceNFT>(at($0.proof, 0))} ;; !{$0.reward_contract} | {at($0.proof, 0)} ;; !{$0.reward_contract} | {$0.reward_contract == at($0.proof, 0).contract} ;; !{$0.height < @params.transaction_activation} | !{$0.tx_count} ;; {$0.project_addr == find_prev($0, 1, false).project_addr} ;; {validate(elem($0.tx_list), new_exec_context($0.height))}
value fold(rbegin($0.tx_list), (~ + 1))
value fold(0, elem($0.tx_list), $0.tx_list)
value fold(fold(0, fold(~, (~? + 1))), (~ + 1))
exit !{@params.max_block_size < $0.static_cost}
exit {did wait(new_exec_context($0.height), elem($0.tx_list).id)}
exit !{($0.time_stamp + -find_prev($0, 1, false).time_stamp) < (($0.vdf_count * @params.block_interval_ms) / 2)}
exit !{($0.vdf_count * 2 * @params.block_interval_ms) < ($0.time_stamp + -find_prev($0, 1, false).time_stamp)}
exit {elem($0.tx_list).exec_result}
exit !{(100 * @params.challenge_interval) < $0.space_fork_len}
exit {ret = new_exec_context($0.height)}
exit {did find(%balance_cache_t, elem($0.tx_list).sender, ctor(addr_t)) = (-elem($0.tx_list).exec_result.total_fee + find(%balance_cache_t, elem($0.tx_list).sender, ctor(addr_t)))}
exit {elem($0.tx_list).sender}
exit {did signal(new_exec_context($0.height), elem($0.tx_list).id)}
exit {has(%balance_cache_t, elem($0.tx_list).sender)}
exit !{@params.max_block_cost < $0.total_cost}
exit !{$0.version}
exit {-2 < $0.reward_vote}
exit {$0.height == (find_prev($0, 1, false).height + 1)}
exit {@state_hash == find_prev($0, 1, false).hash}
exit {elem($0.tx_list)}
exit !{1 < $0.reward_vote}
exit !{find(%balance_cache_t, elem($0.tx_list).sender, ctor(addr_t)) < elem($0.tx_list).exec_result.total_fee}
exit {inserted(%unordered_set<addr_t>, elem($0.tx_list).id)}
exit {$0.project_addr == find_prev($0, 1, false).project_addr}
exit {did sync(@threads)}
exit {$0.reward_addr} | !{$0.reward_contract}
exit {at($0.proof, 0)} | !{$0.reward_contract}
exit {is<ProofOfSpaceNFT>(at($0.proof, 0))} | !{$0.reward_contract}
exit {$0.reward_contract == at($0.proof, 0).contract} | !{$0.reward_addr} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))}
exit {-1 < $0.time_stamp}
exit {find_prev($0, 1, false)}
exit {did prepare_context(new_exec_context($0.height), elem($0.tx_list))}
exit !{$0.time_diff < @params.time_diff_divider}
exit {did insert(%unordered_set<addr_t>, elem($0.tx_list).id)}
exit {$0.space_diff}
exit {$0.txfee_buffer == calc_new_txfee_buffer(@params, find_prev($0, 1, false))}
exit {is_valid($0, @params)}
exit {did find(%balance_cache_t, elem($0.tx_list).sender, ctor(addr_t))}
exit !{$0.height < @params.transaction_activation} | !{$0.tx_count}
exit {did find(%balance_cache_t, elem(elem($0.tx_list).inputs).address, elem(elem($0.tx_list).inputs).contract)} | {elem($0.tx_list).exec_result.did_fail}
exit {elem($0.tx_list).exec_result.did_fail} | {has(%balance_cache_t, elem(elem($0.tx_list).inputs).address)}
exit {$0.reward_vote_count == 1} | !{$0.reward_vote} | {($0.height % @params.reward_adjust_interval)}
exit !{$0.reward_vote_count} | {$0.reward_vote} | {($0.height % @params.reward_adjust_interval)}
exit !{$0.reward_amount} | {$0.reward_addr}
exit !{$0.vdf_reward_payout} | !{($0.height % @params.vdf_reward_interval)}
exit {$0.reward_vote == $0.reward_vote_sum} | {($0.height % @params.reward_adjust_interval)}
exit {$0.vdf_reward_payout == get_vdf_reward_winner($0)} | {($0.height % @params.vdf_reward_interval)}
exit !{$0.reward_addr} | {$0.reward_amount == calc_block_reward($0, $0.tx_fees)}
exit {did find(%balance_cache_t, elem(elem($0.tx_list).inputs).address, elem(elem($0.tx_list).inputs).contract) = (-elem(elem($0.tx_list).inputs).amount + find(%balance_cache_t, elem(elem($0.tx_list).inputs).address, elem(elem($0.tx_list).inputs).contract))} | {elem($0.tx_list).exec_result.did_fail}
exit !{find(%balance_cache_t, elem(elem($0.tx_list).inputs).address, elem(elem($0.tx_list).inputs).contract) < elem(elem($0.tx_list).inputs).amount} | {elem($0.tx_list).exec_result.did_fail}
exit !{($0.height % @params.reward_adjust_interval)} | {$0.reward_vote_count == (find_prev($0, 1, false).reward_vote_count + ite({$0.reward_vote}, 1, 0))}
exit {$0.base_reward == calc_new_base_reward(@params, find_prev($0, 1, false))} | {($0.height % @params.reward_adjust_interval)}
exit !{($0.height % @params.reward_adjust_interval)} | {$0.reward_vote_sum == ($0.reward_vote + find_prev($0, 1, false).reward_vote_sum)}
exit !{($0.height % @params.reward_adjust_interval)} | {$0.base_reward == find_prev($0, 1, false).base_reward}
exit !{$0.reward_addr} | !{at($0.proof, 0).contract} | !{at($0.proof, 0)} | !{is<ProofOfSpaceNFT>(at($0.proof, 0))} | {$0.reward_addr == get_plot_nft_target(at($0.proof, 0).contract, $0.reward_account)}
at find(%balance_cache_t, elem($0.tx_list).sender, ctor(addr_t)) = (-elem($0.tx_list).exec_result.total_fee + find(%balance_cache_t, elem($0.tx_list).sender, ctor(addr_t)))
at find(%balance_cache_t, elem(elem($0.tx_list).inputs).address, elem(elem($0.tx_list).inputs).contract) ;; !{elem($0.tx_list).exec_result.did_fail}
at find(%balance_cache_t, elem(elem($0.tx_list).inputs).address, elem(elem($0.tx_list).inputs).contract) = (-elem(elem($0.tx_list).inputs).amount + find(%balance_cache_t, elem(elem($0.tx_list).inputs).address, elem(elem($0.tx_list).inputs).contract)) ;; !{elem($0.tx_list).exec_result.did_fail} ;; {has(%balance_cache_t, elem(elem($0.tx_list).inputs).address)} ;; !{find(%balance_cache_t, elem(elem($0.tx_list).inputs).address, elem(elem($0.tx_list).inputs).contract) < elem(elem($0.tx_list).inputs).amount}
at validate($0) ;; {is_valid($0, @params)}
exit {did validate($0)}
at find(%balance_cache_t, elem($0.tx_list).sender, ctor(addr_t)) = … ;; !{find(%balance_cache_t, elem($0.tx_list).sender, ctor(addr_t)) < elem($0.tx_list).exec_result.total_fee} ;; {has(%balance_cache_t, elem($0.tx_list).sender)}
at find(%balance_cache_t, elem(elem($0.tx_list).inputs).address, elem(elem($0.tx_list).inputs).contract) = … ;; !{find(%balance_cache_t, elem(elem($0.tx_list).inputs).address, elem(elem($0.tx_list).inputs).contract) < elem(elem($0.tx_list).inputs).amount} ;; {has(%balance_cache_t, elem(elem($0.tx_list).inputs).address)}
exit !{‥.fee_ratio < (1024 * at(@params.min_fee_ratio, …))} | !{u32(size(@params.min_fee_ratio))}
exit {‥ < u32(size(@params.min_fee_ratio))} | !{u32(size(@params.min_fee_ratio))}
exit !{validate(elem($0.tx_list), new_exec_context($0.height))}
exit {did validate(elem($0.tx_list), new_exec_context($0.height))}
exit !{fold(0, elem($0.tx_list), $0.tx_list).fee_ratio < elem($0.tx_list).fee_ratio} | !{fold(0, elem($0.tx_list), $0.tx_list)}
