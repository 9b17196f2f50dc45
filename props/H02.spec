tus src/BlockHeader.cpp src/Block.cpp
fn mmx::BlockHeader::calc_hash
never break(@proof)
raise !{$0}
exit {$0}
exit {did push_back(%vector<hash_t>, calc_hash(elem(@proof)))}
exit {ret = ctor(hash_t, %vector<unsignedchar>)}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "version", @version) ;; write_field(%WriteBytes, "support_flags", @support_flags) ;; write_field(%WriteBytes, "prev", @prev) ;; write_field(%WriteBytes, "height", @height) ;; write_field(%WriteBytes, "vdf_height", @vdf_height) ;; write_field(%WriteBytes, "nonce", @nonce) ;; write_field(%WriteBytes, "time_stamp", @time_stamp) ;; write_field(%WriteBytes, "time_diff", @time_diff) ;; write_field(%WriteBytes, "space_diff", @space_diff) ;; write_field(%WriteBytes, "weight", @weight) ;; write_field(%WriteBytes, "total_weight", @total_weight) ;; write_field(%WriteBytes, "vdf_count", @vdf_count) ;; write_field(%WriteBytes, "vdf_iters", @vdf_iters) ;; write_field(%WriteBytes, "vdf_output", @vdf_output) ;; write_field(%WriteBytes, "vdf_reward_addr", @vdf_reward_addr) ;; write_field(%WriteBytes, "vdf_reward_payout", @vdf_reward_payout) ;; write_field(%WriteBytes, "proof", %vector<hash_t>) ;; write_field(%WriteBytes, "proof_hash", @proof_hash) ;; write_field(%WriteBytes, "proof_chain", @proof_chain) ?? !{@height < $0.hardfork2_height} ;; write_field(%WriteBytes, "challenge", @challenge) ;; write_field(%WriteBytes, "is_space_fork", @is_space_fork) ;; write_field(%WriteBytes, "space_fork_len", @space_fork_len) ;; write_field(%WriteBytes, "space_fork_proofs", @space_fork_proofs) ;; write_field(%WriteBytes, "reward_amount", @reward_amount) ;; write_field(%WriteBytes, "reward_addr", @reward_addr) ;; write_field(%WriteBytes, "reward_contract", @reward_contract) ;; write_field(%WriteBytes, "reward_account", @reward_account) ;; write_field(%WriteBytes, "reward_vote", @reward_vote) ;; write_field(%WriteBytes, "reward_vote_sum", @reward_vote_sum) ;; write_field(%WriteBytes, "reward_vote_count", @reward_vote_count) ;; write_field(%WriteBytes, "base_reward", @base_reward) ;; write_field(%WriteBytes, "project_addr", @project_addr) ;; write_field(%WriteBytes, "static_cost", @static_cost) ;; write_field(%WriteBytes, "total_cost", @total_cost) ;; write_field(%WriteBytes, "tx_count", @tx_count) ;; write_field(%WriteBytes, "tx_fees", @tx_fees) ;; write_field(%WriteBytes, "txfee_buffer", @txfee_buffer) ;; write_field(%WriteBytes, "tx_hash", @tx_hash)
fn mmx::BlockHeader::calc_content_hash
never throw …
exit !{@farmer_sig} | {ret = ctor(hash_t, (@hash ++ @farmer_sig))}
exit {@farmer_sig} | {ret = ctor(hash_t, @hash.bytes)}
exit !{@farmer_sig} | {ret = ctor(hash_t, (@hash ++ @farmer_sig))}
exit {@farmer_sig} | {ret = ctor(hash_t, @hash.bytes)}
fn mmx::BlockHeader::validate
raise !{@farmer_sig}
raise {@farmer_sig} ;; !{verify(@farmer_sig, get_farmer_key(), @hash)}
exit {@farmer_sig}
exit {verify(@farmer_sig, get_farmer_key(), @hash)}
fn mmx::BlockHeader::is_valid
false {@height} | !{elem(@proof)} | !{is_valid(elem(@proof))} | {@version} | {@reward_amount} | !{@vdf_count == size(@vdf_reward_addr)} | !{@hash == calc_hash($0)} | !{@content_hash == calc_content_hash()}
false {@height} | !{elem(@proof)} | !{is_valid(elem(@proof))} | {@version} | !{@reward_addr} | !{@vdf_count == size(@vdf_reward_addr)} | !{@hash == calc_hash($0)} | !{@content_hash == calc_content_hash()}
false {@height} | !{@vdf_count} | !{elem(@proof)} | !{is_valid(elem(@proof))} | {@version} | {@reward_amount} | !{@vdf_count == size(@vdf_reward_addr)} | !{@hash == calc_hash($0)} | !{@content_hash == calc_content_hash()}
false {@height} | !{@vdf_count} | !{elem(@proof)} | !{is_valid(elem(@proof))} | {@version} | !{@reward_addr} | !{@vdf_count == size(@vdf_reward_addr)} | !{@hash == calc_hash($0)} | !{@content_hash == calc_content_hash()}
false {@height} | !{@farmer_sig} | !{elem(@proof)} | !{is_valid(elem(@proof))} | {@version} | {@reward_amount} | !{@vdf_count == size(@vdf_reward_addr)} | !{@hash == calc_hash($0)} | !{@content_hash == calc_content_hash()}
false {@height} | !{@farmer_sig} | !{elem(@proof)} | !{is_valid(elem(@proof))} | {@version} | !{@reward_addr} | !{@vdf_count == size(@vdf_reward_addr)} | !{@hash == calc_hash($0)} | !{@content_hash == calc_content_hash()}
false {@height} | !{@farmer_sig} | !{@vdf_count} | !{elem(@proof)} | !{is_valid(elem(@proof))} | {@version} | {@reward_amount} | !{@vdf_count == size(@vdf_reward_addr)} | !{@hash == calc_hash($0)} | !{@content_hash == calc_content_hash()}
false {@height} | !{@farmer_sig} | !{@vdf_count} | !{elem(@proof)} | !{is_valid(elem(@proof))} | {@version} | !{@reward_addr} | !{@vdf_count == size(@vdf_reward_addr)} | !{@hash == calc_hash($0)} | !{@content_hash == calc_content_hash()}
false {empty(@proof)} | {@height} | !{elem(@proof)} | !{is_valid(elem(@proof))} | {@version} | {@reward_amount} | !{@vdf_count == size(@vdf_reward_addr)} | !{@hash == calc_hash($0)} | !{@content_hash == calc_content_hash()}
false {empty(@proof)} | {@height} | !{elem(@proof)} | !{is_valid(elem(@proof))} | {@version} | !{@reward_addr} | !{@vdf_count == size(@vdf_reward_addr)} | !{@hash == calc_hash($0)} | !{@content_hash == calc_content_hash()}
false {empty(@proof)} | {@height} | !{@vdf_count} | !{elem(@proof)} | !{is_valid(elem(@proof))} | {@version} | {@reward_amount} | !{@vdf_count == size(@vdf_reward_addr)} | !{@hash == calc_hash($0)} | !{@content_hash == calc_content_hash()}
false {empty(@proof)} | {@height} | !{@vdf_count} | !{elem(@proof)} | !{is_valid(elem(@proof))} | {@version} | !{@reward_addr} | !{@vdf_count == size(@vdf_reward_addr)} | !{@hash == calc_hash($0)} | !{@content_hash == calc_content_hash()}
false {empty(@proof)} | !{@farmer_sig} | {@height} | !{elem(@proof)} | !{is_valid(elem(@proof))} | {@version} | {@reward_amount} | !{@vdf_count == size(@vdf_reward_addr)} | !{@hash == calc_hash($0)} | !{@content_hash == calc_content_hash()}
false {empty(@proof)} | !{@farmer_sig} | {@height} | !{elem(@proof)} | !{is_valid(elem(@proof))} | {@version} | !{@reward_addr} | !{@vdf_count == size(@vdf_reward_addr)} | !{@hash == calc_hash($0)} | !{@content_hash == calc_content_hash()}
false {empty(@proof)} | !{@farmer_sig} | !{@vdf_count} | !{elem(@proof)} | !{is_valid(elem(@proof))} | {@version} | {@reward_amount} | !{@vdf_count == size(@vdf_reward_addr)} | !{@hash == calc_hash($0)} | !{@content_hash == calc_content_hash()}
false {empty(@proof)} | !{@farmer_sig} | !{@vdf_count} | !{elem(@proof)} | !{is_valid(elem(@proof))} | {@version} | !{@reward_addr} | !{@vdf_count == size(@vdf_reward_addr)} | !{@hash == calc_hash($0)} | !{@content_hash == calc_content_hash()}
never throw …
true !{@height} | !{empty(@proof)}
true !{@height} | {@farmer_sig}
true !{@height} | {@vdf_count}
true {elem(@proof)}
true {is_valid(elem(@proof))}
true !{@version}
true !{@reward_amount} | {@reward_addr}
true {@vdf_count == size(@vdf_reward_addr)}
true {@hash == calc_hash($0)}
true {@content_hash == calc_content_hash()}
never break(@proof) ;; !{elem(@proof)} | !{is_valid(elem(@proof))}
fn mmx::Block::is_valid
false !{elem(@tx_list)} | !{calc_hash(elem(@tx_list), true) == elem(@tx_list).content_hash} | {@height} | !{is_valid($0)} | !{@static_cost == total(@tx_list, elem(@tx_list).static_cost)} | !{@total_cost == total(@tx_list, ite({elem(@tx_list).exec_result}, elem(@tx_list).exec_result.total_cost, 0))} | !{@tx_fees == total(@tx_list, ite({elem(@tx_list).exec_result}, elem(@tx_list).exec_result.total_fee, 0))} | !{@tx_count == size(@tx_list)} | !{@tx_hash == calc_tx_hash()}
false !{elem(@tx_list)} | !{calc_hash(elem(@tx_list), true) == elem(@tx_list).content_hash} | !{elem(@tx_list).exec_result} | !{is_valid($0)} | !{@static_cost == total(@tx_list, elem(@tx_list).static_cost)} | !{@total_cost == total(@tx_list, ite({elem(@tx_list).exec_result}, elem(@tx_list).exec_result.total_cost, 0))} | !{@tx_fees == total(@tx_list, ite({elem(@tx_list).exec_result}, elem(@tx_list).exec_result.total_fee, 0))} | !{@tx_count == size(@tx_list)} | !{@tx_hash == calc_tx_hash()}
never throw …
true {elem(@tx_list)}
true {calc_hash(elem(@tx_list), true) == elem(@tx_list).content_hash}
true !{@height} | {elem(@tx_list).exec_result}
true {is_valid($0)}
true {@static_cost == total(@tx_list, elem(@tx_list).static_cost)}
true {@total_cost == total(@tx_list, ite({elem(@tx_list).exec_result}, elem(@tx_list).exec_result.total_cost, 0))}
true {@tx_fees == total(@tx_list, ite({elem(@tx_list).exec_result}, elem(@tx_list).exec_result.total_fee, 0))}
true {@tx_count == size(@tx_list)}
true {@tx_hash == calc_tx_hash()}
fn mmx::Block::calc_tx_hash
never break(@tx_list)
each push_back(%vector<hash_t>, elem(@tx_list).content_hash)
never throw …
exit {did push_back(%vector<hash_t>, elem(@tx_list).content_hash)}
exit {ret = calc_btree_hash(%vector<hash_t>)}
fn mmx::Block::get_inputs
never break(@tx_list)
each %txio_t.address = elem(@tx_list).sender ;; {elem(@tx_list).exec_result} ;; {elem(@tx_list).sender}
each %txio_t.amount = elem(@tx_list).exec_result.total_fee ;; {elem(@tx_list).exec_result} ;; {elem(@tx_list).sender}
each push_back(%vector<txio_entry_t>, create_ex(elem(@tx_list).id, @height, @time_stamp, tx_type_e::TXFEE, %txio_t)) ;; {elem(@tx_list).exec_result} ;; {elem(@tx_list).sender}
each push_back(%vector<txio_entry_t>, create_ex(elem(@tx_list).id, @height, @time_stamp, tx_type_e::SPEND, elem(get_inputs(elem(@tx_list))))) ;; !{elem(@tx_list).exec_result.did_fail} | !{elem(@tx_list).exec_result}
never break(get_inputs(elem(@tx_list)))
never throw …
exit {ret = %vector<txio_entry_t>}
exit {did push_back(%vector<txio_entry_t>, create_ex(elem(@tx_list).id, @height, @time_stamp, tx_type_e::SPEND, elem(get_inputs(elem(@tx_list)))))} | {elem(@tx_list).exec_result.did_fail}
exit {did push_back(%vector<txio_entry_t>, create_ex(elem(@tx_list).id, @height, @time_stamp, tx_type_e::SPEND, elem(get_inputs(elem(@tx_list)))))} | {elem(@tx_list).exec_result}
exit !{elem(@tx_list).exec_result} | !{elem(@tx_list).sender} | {did %txio_t.address = elem(@tx_list).sender}
exit !{elem(@tx_list).exec_result} | !{elem(@tx_list).sender} | {did %txio_t.amount = elem(@tx_list).exec_result.total_fee}
exit !{elem(@tx_list).exec_result} | !{elem(@tx_list).sender} | {did push_back(%vector<txio_entry_t>, create_ex(elem(@tx_list).id, @height, @time_stamp, tx_type_e::TXFEE, %txio_t))}
at %txio_t.address = elem(@tx_list).sender ;; {elem(@tx_list).exec_result} ;; {elem(@tx_list).sender}
at %txio_t.amount = elem(@tx_list).exec_result.total_fee ;; {elem(@tx_list).exec_result} ;; {elem(@tx_list).sender}
at push_back(%vector<txio_entry_t>, create_ex(elem(@tx_list).id, @height, @time_stamp, tx_type_e::TXFEE, %txio_t)) ;; {elem(@tx_list).exec_result} ;; {elem(@tx_list).sender}
at push_back(%vector<txio_entry_t>, create_ex(elem(@tx_list).id, @height, @time_stamp, tx_type_e::SPEND, elem(get_inputs(elem(@tx_list))))) ;; !{elem(@tx_list).exec_result.did_fail} | !{elem(@tx_list).exec_result}
fn mmx::Block::get_outputs
never break(@tx_list)
each %txio_t.address = @vdf_reward_payout ;; {@vdf_reward_payout}
each %txio_t.amount = $0.vdf_reward ;; {@vdf_reward_payout}
each push_back(%vector<txio_entry_t>, create_ex(@hash, @height, @time_stamp, tx_type_e::VDF_REWARD, %txio_t)) ;; {@vdf_reward_payout}
each %txio_t.address = @reward_addr ;; {@reward_addr} ;; {@reward_amount}
each %txio_t.amount = @reward_amount ;; {@reward_addr} ;; {@reward_amount}
each push_back(%vector<txio_entry_t>, create_ex(@hash, @height, @time_stamp, tx_type_e::REWARD, %txio_t)) ;; {@reward_addr} ;; {@reward_amount}
each %txio_t.address = @project_addr
each %txio_t.amount = calc_project_reward($0, @tx_fees)
each push_back(%vector<txio_entry_t>, create_ex(@hash, @height, @time_stamp, tx_type_e::PROJECT_REWARD, %txio_t)) ;; {calc_project_reward($0, @tx_fees)}
each push_back(%vector<txio_entry_t>, create_ex(elem(@tx_list).id, @height, @time_stamp, tx_type_e::RECEIVE, elem(get_outputs(elem(@tx_list))))) ;; !{elem(@tx_list).exec_result.did_fail} | !{elem(@tx_list).exec_result}
never break(get_outputs(elem(@tx_list)))
never throw …
exit {did %txio_t.address = @project_addr}
exit {did %txio_t.amount = calc_project_reward($0, @tx_fees)}
exit {ret = %vector<txio_entry_t>}
exit !{@vdf_reward_payout} | {did %txio_t.address = @vdf_reward_payout}
exit !{@vdf_reward_payout} | {did %txio_t.amount = $0.vdf_reward}
exit !{@vdf_reward_payout} | {did push_back(%vector<txio_entry_t>, create_ex(@hash, @height, @time_stamp, tx_type_e::VDF_REWARD, %txio_t))}
exit !{calc_project_reward($0, @tx_fees)} | {did push_back(%vector<txio_entry_t>, create_ex(@hash, @height, @time_stamp, tx_type_e::PROJECT_REWARD, %txio_t))}
exit {did push_back(%vector<txio_entry_t>, create_ex(elem(@tx_list).id, @height, @time_stamp, tx_type_e::RECEIVE, elem(get_outputs(elem(@tx_list)))))} | {elem(@tx_list).exec_result.did_fail}
exit {did push_back(%vector<txio_entry_t>, create_ex(elem(@tx_list).id, @height, @time_stamp, tx_type_e::RECEIVE, elem(get_outputs(elem(@tx_list)))))} | {elem(@tx_list).exec_result}
exit !{@reward_addr} | !{@reward_amount} | {did %txio_t.address = @reward_addr}
exit !{@reward_addr} | !{@reward_amount} | {did %txio_t.amount = @reward_amount}
exit !{@reward_addr} | !{@reward_amount} | {did push_back(%vector<txio_entry_t>, create_ex(@hash, @height, @time_stamp, tx_type_e::REWARD, %txio_t))}
at %txio_t.address = @vdf_reward_payout ;; {@vdf_reward_payout}
at %txio_t.amount = $0.vdf_reward ;; {@vdf_reward_payout}
at push_back(%vector<txio_entry_t>, create_ex(@hash, @height, @time_stamp, tx_type_e::VDF_REWARD, %txio_t)) ;; {@vdf_reward_payout}
at %txio_t.address = @reward_addr ;; {@reward_addr} ;; {@reward_amount}
at %txio_t.amount = @reward_amount ;; {@reward_addr} ;; {@reward_amount}
at push_back(%vector<txio_entry_t>, create_ex(@hash, @height, @time_stamp, tx_type_e::REWARD, %txio_t)) ;; {@reward_addr} ;; {@reward_amount}
at %txio_t.address = @project_addr
at %txio_t.amount = calc_project_reward($0, @tx_fees)
at push_back(%vector<txio_entry_t>, create_ex(@hash, @height, @time_stamp, tx_type_e::PROJECT_REWARD, %txio_t)) ;; {calc_project_reward($0, @tx_fees)}
at push_back(%vector<txio_entry_t>, create_ex(elem(@tx_list).id, @height, @time_stamp, tx_type_e::RECEIVE, elem(get_outputs(elem(@tx_list))))) ;; !{elem(@tx_list).exec_result.did_fail} | !{elem(@tx_list).exec_result}
fn mmx::Block::get_header
each operator=(%shared_ptr<BlockHeader>, this)
never throw …
exit {did operator=(%shared_ptr<BlockHeader>, this)}
exit {ret = %shared_ptr<BlockHeader>}
fn mmx::Block::finalize
never break(@tx_list)
each @static_cost = 0
each @total_cost = 0
each @tx_fees = 0
each @total_cost = (@total_cost + elem(@tx_list).exec_result.total_cost) ;; {elem(@tx_list).exec_result}
each @tx_fees = (@tx_fees + elem(@tx_list).exec_result.total_fee) ;; {elem(@tx_list).exec_result}
each @static_cost = (@static_cost + elem(@tx_list).static_cost)
each @tx_count = u32(size(@tx_list))
each @tx_hash = calc_tx_hash()
each @hash = calc_hash($0)
never throw …
exit {did @hash = calc_hash($0)}
exit {did @static_cost = (@static_cost + elem(@tx_list).static_cost)}
exit {did @static_cost = 0}
exit {did @total_cost = 0}
exit {did @tx_count = u32(size(@tx_list))}
exit {did @tx_fees = 0}
exit {did @tx_hash = calc_tx_hash()}
exit !{elem(@tx_list).exec_result} | {did @total_cost = (@total_cost + elem(@tx_list).exec_result.total_cost)}
exit !{elem(@tx_list).exec_result} | {did @tx_fees = (@tx_fees + elem(@tx_list).exec_result.total_fee)}
