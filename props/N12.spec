tus src/Node_update.cpp
fn mmx::Node::make_block
never break(loop)
each fork_to($0.hash) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each %shared_ptr<Block>.prev = $0.hash ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each %shared_ptr<Block>.height = ($0.height + 1) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each %shared_ptr<Block>.time_diff = $0.time_diff ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each %shared_ptr<Block>.vdf_count = u32(size($1)) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each %shared_ptr<Block>.vdf_height = ($0.vdf_height + u32(size($1))) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each %shared_ptr<Block>.reward_vote = i8(@reward_vote) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each %shared_ptr<Block>.project_addr = $0.project_addr ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each %shared_ptr<Block>.txfee_buffer = calc_new_txfee_buffer(@params, $0) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each %shared_ptr<Block>.support_flags = (%shared_ptr<Block>.support_flags | SUPPORT_HARDFORK1 | SUPPORT_HARDFORK2) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each %shared_ptr<Block>.vdf_iters = $0.vdf_iters ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each %shared_ptr<Block>.vdf_iters = (%shared_ptr<Block>.vdf_iters + elem($1).num_iters) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each %shared_ptr<Block>.vdf_output = elem($1).output ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each push_back(%shared_ptr<Block>.vdf_reward_addr, elem($1).reward_addr) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each push_back(%shared_ptr<Block>.proof, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), fold(0, (~ + 1))).proof) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; {fold(0, (~ + 1)) < size(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; {fold(0, (~ + 1)) < @params.max_proof_count}
each %shared_ptr<Block>.proof_hash = at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).hash ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each %shared_ptr<Block>.proof_chain = calc_proof_chain(@params, $0, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).hash) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each calc_next_challenge(@params, $0, %shared_ptr<Block>, %shared_ptr<Block>.is_space_fork) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each %shared_ptr<Block>.challenge = calc_next_challenge(@params, $0, %shared_ptr<Block>, %shared_ptr<Block>.is_space_fork) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each %shared_ptr<Block>.vdf_reward_payout = get_vdf_reward_winner(%shared_ptr<Block>) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; !{(($0.height + 1) % @params.vdf_reward_interval)}
each %shared_ptr<Block>.reward_contract = at(%shared_ptr<Block>.proof, 0).contract ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; {is<ProofOfSpaceNFT>(at(%shared_ptr<Block>.proof, 0))} ;; {at(%shared_ptr<Block>.proof, 0)}
each %shared_ptr<Block>.reward_addr = get_plot_nft_target(%shared_ptr<Block>.reward_contract, random()) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; {%shared_ptr<Block>.reward_contract} ;; !{get_plot_nft_target(%shared_ptr<Block>.reward_contract, random()) == random()}
each %shared_ptr<Block>.time_diff = max(@params.time_diff_divider, i64((((f64((($0.height + -find_prev($0, 100, false).height) * @params.block_interval_ms)) / f64(($0.time_stamp + -find_prev($0, 100, false).time_stamp))) * f64(((find_prev($0, (@params.commit_delay + @params.infuse_delay), true).time_diff + find_prev(find_prev($0, 100, false), (@params.commit_delay + @params.infuse_delay), true).time_diff) / 2))) + 0.5))) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; {find_prev($0, 100, false)} ;; {find_prev(find_prev($0, 100, false), (@params.commit_delay + @params.infuse_delay), true)} ;; {find_prev($0, (@params.commit_delay + @params.infuse_delay), true)}
each %shared_ptr<Block>.time_diff = max(($0.time_diff + -max(($0.time_diff >> @params.max_diff_adjust), 1)), ite((!{find_prev($0, (@params.commit_delay + @params.infuse_delay), true)} || !{find_prev(find_prev($0, 100, false), (@params.commit_delay + @params.infuse_delay), true)}), $0.time_diff, max(@params.time_diff_divider, i64((((f64((($0.height + -find_prev($0, 100, false).height) * @params.block_interval_ms)) / f64(($0.time_stamp + -find_prev($0, 100, false).time_stamp))) * f64(((find_prev($0, (@params.commit_delay + @params.infuse_delay), true).time_diff + find_prev(find_prev($0, 100, false), (@params.commit_delay + @params.infuse_delay), true).time_diff) / 2))) + 0.5))))) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; {find_prev($0, 100, false)} ;; {max(($0.time_diff >> @params.max_diff_adjust), 1) < $0.time_diff}
each %shared_ptr<Block>.time_stamp = ($0.time_stamp + max(((@params.block_interval_ms * u32(size($1))) / 2), min((-$0.time_stamp + get_time_ms()), (2 * @params.block_interval_ms * u32(size($1)))))) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each validate_for_block(((@params.block_interval_ms / 2) + get_time_ms())) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; !{($0.height + 1) < @params.transaction_activation}
each push_back(%shared_ptr<Block>.tx_list, elem(validate_for_block(((@params.block_interval_ms / 2) + get_time_ms()))).tx) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; !{($0.height + 1) < @params.transaction_activation}
each %shared_ptr<Block>.weight = calc_block_weight(@params, %shared_ptr<Block>, $0) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each %shared_ptr<Block>.total_weight = ($0.total_weight + calc_block_weight(@params, %shared_ptr<Block>, $0)) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each %shared_ptr<Block>.reward_amount = calc_block_reward(%shared_ptr<Block>, ite({($0.height + 1) < @params.transaction_activation}, 0, ite({‥}, maybe(0), total(validate_for_block(((@params.block_interval_ms / 2) + get_time_ms())), elem(validate_for_block(((@params.block_interval_ms / 2) + get_time_ms()))).fee)))) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each set_space_diff(%shared_ptr<Block>, @params, $0) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each set_base_reward(%shared_ptr<Block>, @params, $0) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each finalize(%shared_ptr<Block>, @params) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
each sign_block(ctor(FarmerClient, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac), %shared_ptr<Block>) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; {at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac}
each operator=(%shared_ptr<Block>, sign_block(ctor(FarmerClient, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac), %shared_ptr<Block>)) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; {at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac} ;; {sign_block(ctor(FarmerClient, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac), %shared_ptr<Block>)}
each at(@created_blocks, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).hash) = %shared_ptr<Block>.hash ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
never break($1)
never break(validate_for_block(((@params.block_interval_ms / 2) + get_time_ms())))
never throw …
value fold(0, (~ + 1))
exit !{at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac} | {ret = 0} | {sign_block(ctor(FarmerClient, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac), %shared_ptr<Block>)}
exit !{empty($1)} | {ret = 0}
exit !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} | {ret = 0}
exit !{sign_block(ctor(FarmerClient, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac), %shared_ptr<Block>)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} | {ret = %shared_ptr<Block>}
exit {at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} | {ret = %shared_ptr<Block>}
exit !{empty($1)} | {ret = 0}
exit !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} | {empty($1)} | {ret = 0}
exit {did %shared_ptr<Block>.challenge = calc_next_challenge(@params, $0, %shared_ptr<Block>, %shared_ptr<Block>.is_space_fork)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did %shared_ptr<Block>.height = ($0.height + 1)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did %shared_ptr<Block>.prev = $0.hash} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did %shared_ptr<Block>.project_addr = $0.project_addr} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did %shared_ptr<Block>.proof_chain = calc_proof_chain(@params, $0, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).hash)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did %shared_ptr<Block>.proof_hash = at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).hash} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did %shared_ptr<Block>.reward_vote = i8(@reward_vote)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did %shared_ptr<Block>.support_flags = (%shared_ptr<Block>.support_flags | SUPPORT_HARDFORK1 | SUPPORT_HARDFORK2)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did %shared_ptr<Block>.time_diff = $0.time_diff} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did %shared_ptr<Block>.time_stamp = ($0.time_stamp + max(((@params.block_interval_ms * u32(size($1))) / 2), min((-$0.time_stamp + get_time_ms()), (2 * @params.block_interval_ms * u32(size($1))))))} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did %shared_ptr<Block>.total_weight = ($0.total_weight + calc_block_weight(@params, %shared_ptr<Block>, $0))} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did %shared_ptr<Block>.txfee_buffer = calc_new_txfee_buffer(@params, $0)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did %shared_ptr<Block>.vdf_count = u32(size($1))} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did %shared_ptr<Block>.vdf_height = ($0.vdf_height + u32(size($1)))} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did %shared_ptr<Block>.vdf_iters = $0.vdf_iters} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did %shared_ptr<Block>.vdf_iters = (%shared_ptr<Block>.vdf_iters + elem($1).num_iters)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did %shared_ptr<Block>.vdf_output = elem($1).output} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did %shared_ptr<Block>.weight = calc_block_weight(@params, %shared_ptr<Block>, $0)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did calc_next_challenge(@params, $0, %shared_ptr<Block>, %shared_ptr<Block>.is_space_fork)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did finalize(%shared_ptr<Block>, @params)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did fork_to($0.hash)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did push_back(%shared_ptr<Block>.proof, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), fold(0, (~ + 1))).proof)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did push_back(%shared_ptr<Block>.vdf_reward_addr, elem($1).reward_addr)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did set_base_reward(%shared_ptr<Block>, @params, $0)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {did set_space_diff(%shared_ptr<Block>, @params, $0)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit !{find_prev($0, 100, false)} | {did %shared_ptr<Block>.time_diff = min(($0.time_diff + max(($0.time_diff >> @params.max_diff_adjust), 1)), ite({max(($0.time_diff >> @params.max_diff_adjust), 1) < $0.time_diff}, max(($0.time_diff + -max(($0.time_diff >> @params.max_diff_adjust), 1)), ite((!{find_prev($0, (@params.commit_delay + @params.infuse_delay), true)} || !{find_prev(find_prev($0, 100, false), (@params.commit_delay + @params.infuse_delay), true)}), $0.time_diff, max(@params.time_diff_divider, i64((((f64((($0.height + -find_prev($0, 100, false).height) * @params.block_interval_ms)) / f64(($0.time_stamp + -find_prev($0, 100, false).time_stamp))) * f64(((find_prev($0, (@params.commit_delay + @params.infuse_delay), true).time_diff + find_prev(find_prev($0, 100, false), (@params.commit_delay + @params.infuse_delay), true).time_diff) / 2))) + 0.5))))), ite((!{find_prev($0, (@params.commit_delay + @params.infuse_delay), true)} || !{find_prev(find_prev($0, 100, false), (@params.commit_delay + @params.infuse_delay), true)}), $0.time_diff, max(@params.time_diff_divider, i64((((f64((($0.height + -find_prev($0, 100, false).height) * @params.block_interval_ms)) / f64(($0.time_stamp + -find_prev($0, 100, false).time_stamp))) * f64(((find_prev($0, (@params.commit_delay + @params.infuse_delay), true).time_diff + find_prev(find_prev($0, 100, false), (@params.commit_delay + @params.infuse_delay), true).time_diff) / 2))) + 0.5))))))} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit !{fold(0, (~ + 1)) < @params.max_proof_count} | !{fold(0, (~ + 1)) < size(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit !{sign_block(ctor(FarmerClient, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac), %shared_ptr<Block>)} | {did at(@created_blocks, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).hash) = %shared_ptr<Block>.hash} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit !{sign_block(ctor(FarmerClient, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac), %shared_ptr<Block>)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} | {ret = %shared_ptr<Block>}
exit {(($0.height + 1) % @params.vdf_reward_interval)} | {did %shared_ptr<Block>.vdf_reward_payout = get_vdf_reward_winner(%shared_ptr<Block>)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac} | {did at(@created_blocks, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).hash) = %shared_ptr<Block>.hash} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit {at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} | {ret = %shared_ptr<Block>}
exit !{%shared_ptr<Block>.reward_contract} | {did %shared_ptr<Block>.reward_addr = get_plot_nft_target(%shared_ptr<Block>.reward_contract, random())} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} | {get_plot_nft_target(%shared_ptr<Block>.reward_contract, random()) == random()}
exit !{at(%shared_ptr<Block>.proof, 0)} | !{is<ProofOfSpaceNFT>(at(%shared_ptr<Block>.proof, 0))} | {did %shared_ptr<Block>.reward_contract = at(%shared_ptr<Block>.proof, 0).contract} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit !{at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac} | !{sign_block(ctor(FarmerClient, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac), %shared_ptr<Block>)} | {did operator=(%shared_ptr<Block>, sign_block(ctor(FarmerClient, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac), %shared_ptr<Block>))} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit !{at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac} | !{sign_block(ctor(FarmerClient, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac), %shared_ptr<Block>)} | {did sign_block(ctor(FarmerClient, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac), %shared_ptr<Block>)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
exit !{at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac} | {did sign_block(ctor(FarmerClient, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac), %shared_ptr<Block>)} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} | {sign_block(ctor(FarmerClient, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac), %shared_ptr<Block>)}
exit !{at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} | {ret = 0} | {sign_block(ctor(FarmerClient, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac), %shared_ptr<Block>)}
exit !{find_prev($0, 100, false)} | !{max(($0.time_diff >> @params.max_diff_adjust), 1) < $0.time_diff} | {did %shared_ptr<Block>.time_diff = max(($0.time_diff + -max(($0.time_diff >> @params.max_diff_adjust), 1)), ite((!{find_prev($0, (@params.commit_delay + @params.infuse_delay), true)} || !{find_prev(find_prev($0, 100, false), (@params.commit_delay + @params.infuse_delay), true)}), $0.time_diff, max(@params.time_diff_divider, i64((((f64((($0.height + -find_prev($0, 100, false).height) * @params.block_interval_ms)) / f64(($0.time_stamp + -find_prev($0, 100, false).time_stamp))) * f64(((find_prev($0, (@params.commit_delay + @params.infuse_delay), true).time_diff + find_prev(find_prev($0, 100, false), (@params.commit_delay + @params.infuse_delay), true).time_diff) / 2))) + 0.5)))))} | {empty($1)} | {empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at fork_to($0.hash) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at %shared_ptr<Block>.prev = $0.hash ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at %shared_ptr<Block>.height = ($0.height + 1) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at %shared_ptr<Block>.time_diff = $0.time_diff ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at %shared_ptr<Block>.vdf_count = u32(size($1)) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at %shared_ptr<Block>.vdf_height = ($0.vdf_height + u32(size($1))) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at %shared_ptr<Block>.reward_vote = i8(@reward_vote) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at %shared_ptr<Block>.project_addr = $0.project_addr ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at %shared_ptr<Block>.txfee_buffer = calc_new_txfee_buffer(@params, $0) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at %shared_ptr<Block>.support_flags = (%shared_ptr<Block>.support_flags | SUPPORT_HARDFORK1 | SUPPORT_HARDFORK2) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at %shared_ptr<Block>.vdf_iters = $0.vdf_iters ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at %shared_ptr<Block>.vdf_iters = (%shared_ptr<Block>.vdf_iters + elem($1).num_iters) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at %shared_ptr<Block>.vdf_output = elem($1).output ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at push_back(%shared_ptr<Block>.vdf_reward_addr, elem($1).reward_addr) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at push_back(%shared_ptr<Block>.proof, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), fold(0, (~ + 1))).proof) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; {fold(0, (~ + 1)) < size(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; {fold(0, (~ + 1)) < @params.max_proof_count}
at %shared_ptr<Block>.proof_hash = at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).hash ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at %shared_ptr<Block>.proof_chain = calc_proof_chain(@params, $0, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).hash) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at calc_next_challenge(@params, $0, %shared_ptr<Block>, %shared_ptr<Block>.is_space_fork) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at %shared_ptr<Block>.challenge = calc_next_challenge(@params, $0, %shared_ptr<Block>, %shared_ptr<Block>.is_space_fork) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at %shared_ptr<Block>.vdf_reward_payout = get_vdf_reward_winner(%shared_ptr<Block>) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; !{(($0.height + 1) % @params.vdf_reward_interval)}
at %shared_ptr<Block>.reward_contract = at(%shared_ptr<Block>.proof, 0).contract ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; {is<ProofOfSpaceNFT>(at(%shared_ptr<Block>.proof, 0))} ;; {at(%shared_ptr<Block>.proof, 0)}
at %shared_ptr<Block>.reward_addr = get_plot_nft_target(%shared_ptr<Block>.reward_contract, random()) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; {%shared_ptr<Block>.reward_contract} ;; !{get_plot_nft_target(%shared_ptr<Block>.reward_contract, random()) == random()}
at %shared_ptr<Block>.time_diff = max(@params.time_diff_divider, i64((((f64((($0.height + -find_prev($0, 100, false).height) * @params.block_interval_ms)) / f64(($0.time_stamp + -find_prev($0, 100, false).time_stamp))) * f64(((find_prev($0, (@params.commit_delay + @params.infuse_delay), true).time_diff + find_prev(find_prev($0, 100, false), (@params.commit_delay + @params.infuse_delay), true).time_diff) / 2))) + 0.5))) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; {find_prev($0, 100, false)} ;; {find_prev(find_prev($0, 100, false), (@params.commit_delay + @params.infuse_delay), true)} ;; {find_prev($0, (@params.commit_delay + @params.infuse_delay), true)}
at %shared_ptr<Block>.time_diff = max(($0.time_diff + -max(($0.time_diff >> @params.max_diff_adjust), 1)), ite((!{find_prev($0, (@params.commit_delay + @params.infuse_delay), true)} || !{find_prev(find_prev($0, 100, false), (@params.commit_delay + @params.infuse_delay), true)}), $0.time_diff, max(@params.time_diff_divider, i64((((f64((($0.height + -find_prev($0, 100, false).height) * @params.block_interval_ms)) / f64(($0.time_stamp + -find_prev($0, 100, false).time_stamp))) * f64(((find_prev($0, (@params.commit_delay + @params.infuse_delay), true).time_diff + find_prev(find_prev($0, 100, false), (@params.commit_delay + @params.infuse_delay), true).time_diff) / 2))) + 0.5))))) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; {find_prev($0, 100, false)} ;; {max(($0.time_diff >> @params.max_diff_adjust), 1) < $0.time_diff}
at %shared_ptr<Block>.time_diff = min(($0.time_diff + max(($0.time_diff >> @params.max_diff_adjust), 1)), ite({max(($0.time_diff >> @params.max_diff_adjust), 1) < $0.time_diff}, max(($0.time_diff + -max(($0.time_diff >> @params.max_diff_adjust), 1)), ite((!{find_prev($0, (@params.commit_delay + @params.infuse_delay), true)} || !{find_prev(find_prev($0, 100, false), (@params.commit_delay + @params.infuse_delay), true)}), $0.time_diff, max(@params.time_diff_divider, i64((((f64((($0.height + -find_prev($0, 100, false).height) * @params.block_interval_ms)) / f64(($0.time_stamp + -find_prev($0, 100, false).time_stamp))) * f64(((find_prev($0, (@params.commit_delay + @params.infuse_delay), true).time_diff + find_prev(find_prev($0, 100, false), (@params.commit_delay + @params.infuse_delay), true).time_diff) / 2))) + 0.5))))), ite((!{find_prev($0, (@params.commit_delay + @params.infuse_delay), true)} || !{find_prev(find_prev($0, 100, false), (@params.commit_delay + @params.infuse_delay), true)}), $0.time_diff, max(@params.time_diff_divider, i64((((f64((($0.height + -find_prev($0, 100, false).height) * @params.block_interval_ms)) / f64(($0.time_stamp + -find_prev($0, 100, false).time_stamp))) * f64(((find_prev($0, (@params.commit_delay + @params.infuse_delay), true).time_diff + find_prev(find_prev($0, 100, false), (@params.commit_delay + @params.infuse_delay), true).time_diff) / 2))) + 0.5)))))) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; {find_prev($0, 100, false)}
at %shared_ptr<Block>.time_stamp = ($0.time_stamp + max(((@params.block_interval_ms * u32(size($1))) / 2), min((-$0.time_stamp + get_time_ms()), (2 * @params.block_interval_ms * u32(size($1)))))) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at validate_for_block(((@params.block_interval_ms / 2) + get_time_ms())) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; !{($0.height + 1) < @params.transaction_activation}
at push_back(%shared_ptr<Block>.tx_list, elem(validate_for_block(((@params.block_interval_ms / 2) + get_time_ms()))).tx) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; !{($0.height + 1) < @params.transaction_activation}
at %shared_ptr<Block>.weight = calc_block_weight(@params, %shared_ptr<Block>, $0) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at %shared_ptr<Block>.total_weight = ($0.total_weight + calc_block_weight(@params, %shared_ptr<Block>, $0)) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at %shared_ptr<Block>.reward_amount = calc_block_reward(%shared_ptr<Block>, ite({($0.height + 1) < @params.transaction_activation}, 0, ite({…}, maybe(0), total(validate_for_block(((@params.block_interval_ms / 2) + get_time_ms())), elem(validate_for_block(((@params.block_interval_ms / 2) + get_time_ms()))).fee)))) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at set_space_diff(%shared_ptr<Block>, @params, $0) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at set_base_reward(%shared_ptr<Block>, @params, $0) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at finalize(%shared_ptr<Block>, @params) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
at sign_block(ctor(FarmerClient, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac), %shared_ptr<Block>) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; {at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac}
at operator=(%shared_ptr<Block>, sign_block(ctor(FarmerClient, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac), %shared_ptr<Block>)) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; {at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac} ;; {sign_block(ctor(FarmerClient, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac), %shared_ptr<Block>)}
at at(@created_blocks, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).hash) = %shared_ptr<Block>.hash ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; !{at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac} | {sign_block(ctor(FarmerClient, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac), %shared_ptr<Block>)}
at sign_block(ctor(FarmerClient, at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac), %shared_ptr<Block>) ;; !{empty($1)} ;; !{empty(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))} ;; {at(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)), 0).farmer_mac} ;; {did calc_next_challenge(@params, $0, %shared_ptr<Block>, %shared_ptr<Block>.is_space_fork)} ;; {did finalize(%shared_ptr<Block>, @params)} ;; {did fork_to($0.hash)} ;; {did set_base_reward(%shared_ptr<Block>, @params, $0)} ;; {did set_space_diff(%shared_ptr<Block>, @params, $0)} ;; !{fold(0, (~ + 1)) < @params.max_proof_count} | !{fold(0, (~ + 1)) < size(find_value(@proof_map, $2, ctor(vector<Node::proof_data_t>)))}
fn mmx::Node::update
each @update_pending = false
each verify_proofs()
each verify_block_proofs()
each verify_votes()
each fork_to(find_best_fork()) ;; {do_run()} ;; {find_best_fork()} ;; !{@state_hash == find_best_fork().block.hash}
each find_best_fork().is_invalid = true ;; {do_run()} ;; {find_best_fork()} ;; !{@state_hash == find_best_fork().block.hash}
each verify_vdfs()
each commit(elem(get_fork_line(find_fork(get_peak().hash))).block) ;; {get_peak()} ;; {@root} ;; {@root.height < get_peak().height} ;; !{get_peak().height < (elem(get_fork_line(find_fork(get_peak().hash))).block.height + ite({u32(((100 * total(get_fork_line(find_fork(get_peak().hash)), size(elem(get_fork_line(find_fork(get_peak().hash))).block.proof))) / ((-@root.vdf_height + get_peak().vdf_height) * @params.avg_proof_count))) < @commit_threshold}, (3 * @max_future_sync), @params.commit_delay))} ;; !{has(@sync_pending, elem(get_fork_line(find_fork(get_peak().hash))).block.height)} ;; {@is_synced} | {elem(get_fork_line(find_fork(get_peak().hash))).block.height < @sync_pos}
each reset(@stuck_timer) ;; {get_peak()} ;; !{get_peak()}
each @sync_pos = (@sync_peak + -1) ;; {get_peak()} ;; !{@is_synced} ;; {@sync_peak} ;; {empty(@sync_pending)} ;; {@sync_retry < @num_sync_retries} ;; {(@params.block_interval_ms / 2) < (-@sync_finish_ms + get_time_ms())}
each @sync_peak = 0 ;; {get_peak()} ;; !{@is_synced} ;; {@sync_peak} ;; {empty(@sync_pending)} ;; {@sync_retry < @num_sync_retries} ;; {(@params.block_interval_ms / 2) < (-@sync_finish_ms + get_time_ms())}
each @sync_finish_ms = get_time_ms() ;; {get_peak()} ;; !{@is_synced} ;; {@sync_peak} ;; {empty(@sync_pending)} ;; {@sync_retry < @num_sync_retries} ;; {(@params.block_interval_ms / 2) < (-@sync_finish_ms + get_time_ms())}
each @sync_retry = (@sync_retry + 1) ;; {get_peak()} ;; !{@is_synced} ;; {@sync_peak} ;; {empty(@sync_pending)} ;; {@sync_retry < @num_sync_retries} ;; {(@params.block_interval_ms / 2) < (-@sync_finish_ms + get_time_ms())}
each @is_synced = true ;; {get_peak()} ;; !{@is_synced} ;; {@sync_peak} ;; {empty(@sync_pending)} ;; !{@sync_retry < @num_sync_retries}
each on_sync_done(get_peak().height) ;; {get_peak()} ;; !{@is_synced} ;; {@sync_peak} ;; {empty(@sync_pending)} ;; !{@sync_retry < @num_sync_retries}
each sync_more() ;; {get_peak()} ;; !{@is_synced}
each reset(@update_timer) ;; {get_peak()} ;; !{@is_synced}
each get_infusion(get_peak(), fold(0, (~ + 1)), 0) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.infuse_delay + size(find_next_vdf_points(get_peak()))))) < fold(0, (~ + 1))}
each %shared_ptr<IntervalRequest>.vdf_height = (fold(0, (~ + 1)) + get_peak().vdf_height + 1) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.infuse_delay + size(find_next_vdf_points(get_peak()))))) < fold(0, (~ + 1))}
each %shared_ptr<IntervalRequest>.start = fold(get_peak().vdf_iters, (out(get_infusion‥, get_peak(), ~?) + ~)) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.infuse_delay + size(find_next_vdf_points(get_peak()))))) < fold(0, (~ + 1))}
each %shared_ptr<IntervalRequest>.end = (fold(get_peak().vdf_iters, (out(get_infusion‥, get_peak(), ~?) + ~)) + out(get_infusion‥, get_peak(), fold(0, (~ + 1)))) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.infuse_delay + size(find_next_vdf_points(get_peak()))))) < fold(0, (~ + 1))}
each %shared_ptr<IntervalRequest>.infuse = get_infusion(get_peak(), fold(0, (~ + 1)), 0) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.infuse_delay + size(find_next_vdf_points(get_peak()))))) < fold(0, (~ + 1))}
each %shared_ptr<IntervalRequest>.input = ite({empty(find_next_vdf_points(get_peak()))}, get_peak().vdf_output, back(find_next_vdf_points(get_peak())).output) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.infuse_delay + size(find_next_vdf_points(get_peak()))))) < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) == size(find_next_vdf_points(get_peak()))}
each publish(%shared_ptr<IntervalRequest>, @output_interval_request, 0) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.infuse_delay + size(find_next_vdf_points(get_peak()))))) < fold(0, (~ + 1))}
each get_challenge(get_peak(), fold(1, (~ + 1)), 0) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.challenge_delay + size(find_next_vdf_points(get_peak())) + -1))) < fold(1, (~ + 1))}
each %shared_ptr<Challenge>.vdf_height = (fold(1, (~ + 1)) + get_peak().vdf_height) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.challenge_delay + size(find_next_vdf_points(get_peak())) + -1))) < fold(1, (~ + 1))}
each %shared_ptr<Challenge>.challenge = get_challenge(get_peak(), fold(1, (~ + 1)), 0) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.challenge_delay + size(find_next_vdf_points(get_peak())) + -1))) < fold(1, (~ + 1))}
each %shared_ptr<Challenge>.difficulty = out(get_challenge‥, get_peak(), fold(1, (~ + 1))) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.challenge_delay + size(find_next_vdf_points(get_peak())) + -1))) < fold(1, (~ + 1))}
each publish(%shared_ptr<Challenge>, @output_challenges, 0) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.challenge_delay + size(find_next_vdf_points(get_peak())) + -1))) < fold(1, (~ + 1))}
each vote_for_block(find_fork(get_peak().hash)) ;; {get_peak()} ;; {@is_synced} ;; {find_fork(get_peak().hash)} ;; {get_peak().height} ;; !{has(@voted_blocks, get_peak().prev)} ;; {find_best_proof(at(get_peak().proof, 0).challenge)} ;; {find_best_proof(at(get_peak().proof, 0).challenge).hash == get_peak().proof_hash}
each vote_for_block(elem(get_fork_line(find_fork(get_peak().hash)))) ;; {get_peak()} ;; {@is_synced} ;; {find_value(@voted_blocks, elem(get_fork_line(find_fork(get_peak().hash))).block.prev)} ;; !{elem(get_fork_line(find_fork(get_peak().hash))).block.hash == find_value(@voted_blocks, elem(get_fork_line(find_fork(get_peak().hash))).block.prev).first} ;; {@params.block_interval_ms < (-find_value(@voted_blocks, elem(get_fork_line(find_fork(get_peak().hash))).block.prev).second + get_time_ms())}
each make_block(find_prev(get_peak(), 1, false), find_next_vdf_points(find_prev(get_peak(), 1, false)), at(get_peak().proof, 0).challenge) ;; {get_peak()} ;; {@is_synced} ;; {get_peak().height} ;; {find_best_proof(at(get_peak().proof, 0).challenge)} ;; {get_pipe(find_best_proof(at(get_peak().proof, 0).challenge).farmer_mac)} ;; !{has(@created_blocks, find_best_proof(at(get_peak().proof, 0).challenge).hash)} ;; {find_prev(get_peak(), 1, false)} ;; !{empty(find_next_vdf_points(find_prev(get_peak(), 1, false)))}
each add_block(make_block(find_prev(get_peak(), 1, false), find_next_vdf_points(find_prev(get_peak(), 1, false)), at(get_peak().proof, 0).challenge)) ;; {get_peak()} ;; {@is_synced} ;; {get_peak().height} ;; {find_best_proof(at(get_peak().proof, 0).challenge)} ;; {get_pipe(find_best_proof(at(get_peak().proof, 0).challenge).farmer_mac)} ;; !{has(@created_blocks, find_best_proof(at(get_peak().proof, 0).challenge).hash)} ;; {find_prev(get_peak(), 1, false)} ;; !{empty(find_next_vdf_points(find_prev(get_peak(), 1, false)))} ;; {make_block(find_prev(get_peak(), 1, false), find_next_vdf_points(find_prev(get_peak(), 1, false)), at(get_peak().proof, 0).challenge)}
each fork_to(get_peak().hash) ;; {get_peak()} ;; {@is_synced} ;; {get_peak().height} ;; {find_best_proof(at(get_peak().proof, 0).challenge)} ;; {get_pipe(find_best_proof(at(get_peak().proof, 0).challenge).farmer_mac)} ;; !{has(@created_blocks, find_best_proof(at(get_peak().proof, 0).challenge).hash)} ;; {find_prev(get_peak(), 1, false)} ;; !{empty(find_next_vdf_points(find_prev(get_peak(), 1, false)))}
each find_challenge(get_peak(), u32(size(find_next_vdf_points(get_peak()))), ctor(hash_t), 0) ;; {get_peak()} ;; {@is_synced} ;; !{empty(find_next_vdf_points(get_peak()))}
each make_block(get_peak(), find_next_vdf_points(get_peak()), out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0)) ;; {get_peak()} ;; {@is_synced} ;; !{empty(find_next_vdf_points(get_peak()))} ;; {find_challenge(get_peak(), u32(size(find_next_vdf_points(get_peak()))), ctor(hash_t), 0)} ;; {find_best_proof(out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0))} ;; {get_pipe(find_best_proof(out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0)).farmer_mac)} ;; !{has(@created_blocks, find_best_proof(out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0)).hash)}
each add_block(make_block(get_peak(), find_next_vdf_points(get_peak()), out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0))) ;; {get_peak()} ;; {@is_synced} ;; !{empty(find_next_vdf_points(get_peak()))} ;; {find_challenge(get_peak(), u32(size(find_next_vdf_points(get_peak()))), ctor(hash_t), 0)} ;; {find_best_proof(out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0))} ;; {get_pipe(find_best_proof(out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0)).farmer_mac)} ;; !{has(@created_blocks, find_best_proof(out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0)).hash)} ;; {make_block(get_peak(), find_next_vdf_points(get_peak()), out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0))}
each fork_to(get_peak().hash) ;; {get_peak()} ;; {@is_synced} ;; !{empty(find_next_vdf_points(get_peak()))} ;; {find_challenge(get_peak(), u32(size(find_next_vdf_points(get_peak()))), ctor(hash_t), 0)} ;; {find_best_proof(out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0))} ;; {get_pipe(find_best_proof(out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0)).farmer_mac)} ;; !{has(@created_blocks, find_best_proof(out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0)).hash)}
never throw …
value fold(0, (~ + 1))
value fold(1, (~ + 1))
value fold(get_peak().vdf_iters, (out(get_infusion#v, get_peak(), ~?) + ~))
exit {did @update_pending = false}
exit {did verify_block_proofs()}
exit {did verify_proofs()}
exit {did verify_vdfs()}
exit {did verify_votes()}
exit !{@is_synced} | !{get_peak()} | {did %shared_ptr<Challenge>.challenge = get_challenge(get_peak(), fold(1, (~ + 1)), 0)}
exit !{@is_synced} | !{get_peak()} | {did %shared_ptr<Challenge>.difficulty = out(get_challenge‥, get_peak(), fold(1, (~ + 1)))}
exit !{@is_synced} | !{get_peak()} | {did %shared_ptr<Challenge>.vdf_height = (fold(1, (~ + 1)) + get_peak().vdf_height)}
exit !{@is_synced} | !{get_peak()} | {did %shared_ptr<IntervalRequest>.end = (fold(get_peak().vdf_iters, (out(get_infusion‥, get_peak(), ~?) + ~)) + out(get_infusion‥, get_peak(), fold(0, (~ + 1))))}
exit !{@is_synced} | !{get_peak()} | {did %shared_ptr<IntervalRequest>.infuse = get_infusion(get_peak(), fold(0, (~ + 1)), 0)}
exit !{@is_synced} | !{get_peak()} | {did %shared_ptr<IntervalRequest>.start = fold(get_peak().vdf_iters, (out(get_infusion‥, get_peak(), ~?) + ~))}
exit !{@is_synced} | !{get_peak()} | {did %shared_ptr<IntervalRequest>.vdf_height = (fold(0, (~ + 1)) + get_peak().vdf_height + 1)}
exit !{@is_synced} | !{get_peak()} | {did get_challenge(get_peak(), fold(1, (~ + 1)), 0)}
exit !{@is_synced} | !{get_peak()} | {did get_infusion(get_peak(), fold(0, (~ + 1)), 0)}
exit !{@is_synced} | !{get_peak()} | {min(@params.max_vdf_count, u32((@params.challenge_delay + size(find_next_vdf_points(get_peak())) + -1))) < fold(1, (~ + 1))}
exit !{@is_synced} | !{get_peak()} | {min(@params.max_vdf_count, u32((@params.infuse_delay + size(find_next_vdf_points(get_peak()))))) < fold(0, (~ + 1))}
exit !{@state_hash == find_best_fork().block.hash} | !{do_run()} | {did break(loop)}
exit !{do_run()} | {did break(loop)} | {find_best_fork()}
exit !{get_peak()} | {@is_synced} | {did reset(@update_timer)}
exit !{get_peak()} | {@is_synced} | {did sync_more()}
exit !{@is_synced} | !{fold(0, (~ + 1)) == size(find_next_vdf_points(get_peak()))} | !{get_peak()} | {did %shared_ptr<IntervalRequest>.input = ite({empty(find_next_vdf_points(get_peak()))}, get_peak().vdf_output, back(find_next_vdf_points(get_peak())).output)}
exit !{@is_synced} | !{get_peak()} | {did find_challenge(get_peak(), u32(size(find_next_vdf_points(get_peak()))), ctor(hash_t), 0)} | {empty(find_next_vdf_points(get_peak()))}
exit !{do_run()} | !{find_best_fork()} | {@state_hash == find_best_fork().block.hash} | {did break(loop)}
exit !{do_run()} | !{find_best_fork()} | {@state_hash == find_best_fork().block.hash} | {did fork_to(find_best_fork())}
exit !{@root.height < get_peak().height} | !{@root} | !{get_peak().height < (elem(get_fork_line(find_fork(get_peak().hash))).block.height + ite({u32(((100 * total(get_fork_line(find_fork(get_peak().hash)), size(elem(get_fork_line(find_fork(get_peak().hash))).block.proof))) / ((-@root.vdf_height + get_peak().vdf_height) * @params.avg_proof_count))) < @commit_threshold}, (3 * @max_future_sync), @params.commit_delay))} | !{get_peak()} | {did break(get_fork_line(find_fork(get_peak().hash)))}
exit !{@root.height < get_peak().height} | !{@root} | !{get_peak()} | !{has(@sync_pending, elem(get_fork_line(find_fork(get_peak().hash))).block.height)} | {did break(get_fork_line(find_fork(get_peak().hash)))}
at lock_guard(@db_mutex)
at @update_pending = false
at verify_proofs()
at verify_block_proofs()
at verify_votes()
never break(loop) ;; {do_run()}
at fork_to(find_best_fork()) ;; {do_run()} ;; {find_best_fork()} ;; !{@state_hash == find_best_fork().block.hash}
at find_best_fork().is_invalid = true ;; {do_run()} ;; {find_best_fork()} ;; !{@state_hash == find_best_fork().block.hash}
at verify_vdfs()
at commit(elem(get_fork_line(find_fork(get_peak().hash))).block) ;; {get_peak()} ;; {@root} ;; {@root.height < get_peak().height} ;; !{get_peak().height < (elem(get_fork_line(find_fork(get_peak().hash))).block.height + ite({u32(((100 * total(get_fork_line(find_fork(get_peak().hash)), size(elem(get_fork_line(find_fork(get_peak().hash))).block.proof))) / ((-@root.vdf_height + get_peak().vdf_height) * @params.avg_proof_count))) < @commit_threshold}, (3 * @max_future_sync), @params.commit_delay))} ;; !{has(@sync_pending, elem(get_fork_line(find_fork(get_peak().hash))).block.height)} ;; {@is_synced} | {elem(get_fork_line(find_fork(get_peak().hash))).block.height < @sync_pos}
never break(get_fork_line(find_fork(get_peak().hash))) ;; {get_peak()} ;; {@root} ;; {@root.height < get_peak().height} ;; !{@is_synced} | {get_peak().height < (elem(get_fork_line(find_fork(get_peak().hash))).block.height + ite({u32(((100 * total(get_fork_line(find_fork(get_peak().hash)), size(elem(get_fork_line(find_fork(get_peak().hash))).block.proof))) / ((-@root.vdf_height + get_peak().vdf_height) * @params.avg_proof_count))) < @commit_threshold}, (3 * @max_future_sync), @params.commit_delay))} | {has(@sync_pending, elem(get_fork_line(find_fork(get_peak().hash))).block.height)} ;; !{elem(get_fork_line(find_fork(get_peak().hash))).block.height < @sync_pos} | {get_peak().height < (elem(get_fork_line(find_fork(get_peak().hash))).block.height + ite({u32(((100 * total(get_fork_line(find_fork(get_peak().hash)), size(elem(get_fork_line(find_fork(get_peak().hash))).block.proof))) / ((-@root.vdf_height + get_peak().vdf_height) * @params.avg_proof_count))) < @commit_threshold}, (3 * @max_future_sync), @params.commit_delay))} | {has(@sync_pending, elem(get_fork_line(find_fork(get_peak().hash))).block.height)}
at @sync_pos = (@sync_peak + -1) ;; {get_peak()} ;; !{@is_synced} ;; {@sync_peak} ;; {empty(@sync_pending)} ;; {@sync_retry < @num_sync_retries} ;; {(@params.block_interval_ms / 2) < (-@sync_finish_ms + get_time_ms())}
at @sync_peak = 0 ;; {get_peak()} ;; !{@is_synced} ;; {@sync_peak} ;; {empty(@sync_pending)} ;; {@sync_retry < @num_sync_retries} ;; {(@params.block_interval_ms / 2) < (-@sync_finish_ms + get_time_ms())}
at @sync_finish_ms = get_time_ms() ;; {get_peak()} ;; !{@is_synced} ;; {@sync_peak} ;; {empty(@sync_pending)} ;; {@sync_retry < @num_sync_retries} ;; {(@params.block_interval_ms / 2) < (-@sync_finish_ms + get_time_ms())}
at @sync_retry = (@sync_retry + 1) ;; {get_peak()} ;; !{@is_synced} ;; {@sync_peak} ;; {empty(@sync_pending)} ;; {@sync_retry < @num_sync_retries} ;; {(@params.block_interval_ms / 2) < (-@sync_finish_ms + get_time_ms())}
at @is_synced = true ;; {get_peak()} ;; !{@is_synced} ;; {@sync_peak} ;; {empty(@sync_pending)} ;; !{@sync_retry < @num_sync_retries}
at on_sync_done(get_peak().height) ;; {get_peak()} ;; !{@is_synced} ;; {@sync_peak} ;; {empty(@sync_pending)} ;; !{@sync_retry < @num_sync_retries}
at sync_more() ;; {get_peak()} ;; !{@is_synced}
at reset(@update_timer) ;; {get_peak()} ;; !{@is_synced}
at get_infusion(get_peak(), fold(0, (~ + 1)), 0) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.infuse_delay + size(find_next_vdf_points(get_peak()))))) < fold(0, (~ + 1))}
at %shared_ptr<IntervalRequest>.vdf_height = (fold(0, (~ + 1)) + get_peak().vdf_height + 1) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.infuse_delay + size(find_next_vdf_points(get_peak()))))) < fold(0, (~ + 1))}
at %shared_ptr<IntervalRequest>.start = fold(get_peak().vdf_iters, (out(get_infusion‥, get_peak(), ~?) + ~)) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.infuse_delay + size(find_next_vdf_points(get_peak()))))) < fold(0, (~ + 1))}
at %shared_ptr<IntervalRequest>.end = (fold(get_peak().vdf_iters, (out(get_infusion‥, get_peak(), ~?) + ~)) + out(get_infusion‥, get_peak(), fold(0, (~ + 1)))) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.infuse_delay + size(find_next_vdf_points(get_peak()))))) < fold(0, (~ + 1))}
at %shared_ptr<IntervalRequest>.infuse = get_infusion(get_peak(), fold(0, (~ + 1)), 0) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.infuse_delay + size(find_next_vdf_points(get_peak()))))) < fold(0, (~ + 1))}
at %shared_ptr<IntervalRequest>.input = ite({empty(find_next_vdf_points(get_peak()))}, get_peak().vdf_output, back(find_next_vdf_points(get_peak())).output) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.infuse_delay + size(find_next_vdf_points(get_peak()))))) < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) == size(find_next_vdf_points(get_peak()))}
at publish(%shared_ptr<IntervalRequest>, @output_interval_request, 0) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.infuse_delay + size(find_next_vdf_points(get_peak()))))) < fold(0, (~ + 1))}
at get_challenge(get_peak(), fold(1, (~ + 1)), 0) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.challenge_delay + size(find_next_vdf_points(get_peak())) + -1))) < fold(1, (~ + 1))}
at %shared_ptr<Challenge>.vdf_height = (fold(1, (~ + 1)) + get_peak().vdf_height) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.challenge_delay + size(find_next_vdf_points(get_peak())) + -1))) < fold(1, (~ + 1))}
at %shared_ptr<Challenge>.challenge = get_challenge(get_peak(), fold(1, (~ + 1)), 0) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.challenge_delay + size(find_next_vdf_points(get_peak())) + -1))) < fold(1, (~ + 1))}
at %shared_ptr<Challenge>.difficulty = out(get_challenge‥, get_peak(), fold(1, (~ + 1))) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.challenge_delay + size(find_next_vdf_points(get_peak())) + -1))) < fold(1, (~ + 1))}
at publish(%shared_ptr<Challenge>, @output_challenges, 0) ;; {get_peak()} ;; {@is_synced} ;; !{min(@params.max_vdf_count, u32((@params.challenge_delay + size(find_next_vdf_points(get_peak())) + -1))) < fold(1, (~ + 1))}
at vote_for_block(find_fork(get_peak().hash)) ;; {get_peak()} ;; {@is_synced} ;; {find_fork(get_peak().hash)} ;; {get_peak().height} ;; !{has(@voted_blocks, get_peak().prev)} ;; {find_best_proof(at(get_peak().proof, 0).challenge)} ;; {find_best_proof(at(get_peak().proof, 0).challenge).hash == get_peak().proof_hash}
at vote_for_block(elem(get_fork_line(find_fork(get_peak().hash)))) ;; {get_peak()} ;; {@is_synced} ;; {find_value(@voted_blocks, elem(get_fork_line(find_fork(get_peak().hash))).block.prev)} ;; !{elem(get_fork_line(find_fork(get_peak().hash))).block.hash == find_value(@voted_blocks, elem(get_fork_line(find_fork(get_peak().hash))).block.prev).first} ;; {@params.block_interval_ms < (-find_value(@voted_blocks, elem(get_fork_line(find_fork(get_peak().hash))).block.prev).second + get_time_ms())}
at make_block(find_prev(get_peak(), 1, false), find_next_vdf_points(find_prev(get_peak(), 1, false)), at(get_peak().proof, 0).challenge) ;; {get_peak()} ;; {@is_synced} ;; {get_peak().height} ;; {find_best_proof(at(get_peak().proof, 0).challenge)} ;; {get_pipe(find_best_proof(at(get_peak().proof, 0).challenge).farmer_mac)} ;; !{has(@created_blocks, find_best_proof(at(get_peak().proof, 0).challenge).hash)} ;; {find_prev(get_peak(), 1, false)} ;; !{empty(find_next_vdf_points(find_prev(get_peak(), 1, false)))}
at add_block(make_block(find_prev(get_peak(), 1, false), find_next_vdf_points(find_prev(get_peak(), 1, false)), at(get_peak().proof, 0).challenge)) ;; {get_peak()} ;; {@is_synced} ;; {get_peak().height} ;; {find_best_proof(at(get_peak().proof, 0).challenge)} ;; {get_pipe(find_best_proof(at(get_peak().proof, 0).challenge).farmer_mac)} ;; !{has(@created_blocks, find_best_proof(at(get_peak().proof, 0).challenge).hash)} ;; {find_prev(get_peak(), 1, false)} ;; !{empty(find_next_vdf_points(find_prev(get_peak(), 1, false)))} ;; {make_block(find_prev(get_peak(), 1, false), find_next_vdf_points(find_prev(get_peak(), 1, false)), at(get_peak().proof, 0).challenge)}
at fork_to(get_peak().hash) ;; {get_peak()} ;; {@is_synced}
at find_challenge(get_peak(), u32(size(find_next_vdf_points(get_peak()))), ctor(hash_t), 0) ;; {get_peak()} ;; {@is_synced} ;; !{empty(find_next_vdf_points(get_peak()))}
at make_block(get_peak(), find_next_vdf_points(get_peak()), out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0)) ;; {get_peak()} ;; {@is_synced} ;; !{empty(find_next_vdf_points(get_peak()))} ;; {find_challenge(get_peak(), u32(size(find_next_vdf_points(get_peak()))), ctor(hash_t), 0)} ;; {find_best_proof(out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0))} ;; {get_pipe(find_best_proof(out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0)).farmer_mac)} ;; !{has(@created_blocks, find_best_proof(out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0)).hash)}
at add_block(make_block(get_peak(), find_next_vdf_points(get_peak()), out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0))) ;; {get_peak()} ;; {@is_synced} ;; !{empty(find_next_vdf_points(get_peak()))} ;; {find_challenge(get_peak(), u32(size(find_next_vdf_points(get_peak()))), ctor(hash_t), 0)} ;; {find_best_proof(out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0))} ;; {get_pipe(find_best_proof(out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0)).farmer_mac)} ;; !{has(@created_blocks, find_best_proof(out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0)).hash)} ;; {make_block(get_peak(), find_next_vdf_points(get_peak()), out(find_challenge‥, get_peak(), u32(size(find_next_vdf_points(get_peak()))), 0))}
