tus src/Node_validate.cpp
fn mmx::get_params file=include/mmx/utils.h
each read_config("chain.params", %shared_ptr<ChainParams>)
raise !{%shared_ptr<ChainParams>.infuse_delay < %shared_ptr<ChainParams>.challenge_delay}
raise {%shared_ptr<ChainParams>.infuse_delay < %shared_ptr<ChainParams>.challenge_delay} ;; !{%shared_ptr<ChainParams>.challenge_delay < %shared_ptr<ChainParams>.challenge_interval}
raise {%shared_ptr<ChainParams>.infuse_delay < %shared_ptr<ChainParams>.challenge_delay} ;; {%shared_ptr<ChainParams>.challenge_delay < %shared_ptr<ChainParams>.challenge_interval} ;; !{%shared_ptr<ChainParams>.commit_delay < (%shared_ptr<ChainParams>.challenge_interval + -%shared_ptr<ChainParams>.challenge_delay)}
raise {%shared_ptr<ChainParams>.infuse_delay < %shared_ptr<ChainParams>.challenge_delay} ;; {%shared_ptr<ChainParams>.challenge_delay < %shared_ptr<ChainParams>.challenge_interval} ;; {%shared_ptr<ChainParams>.commit_delay < (%shared_ptr<ChainParams>.challenge_interval + -%shared_ptr<ChainParams>.challenge_delay)} ;; {(%shared_ptr<ChainParams>.time_diff_constant % (%shared_ptr<ChainParams>.vdf_segment_size * 2))}
raise {%shared_ptr<ChainParams>.infuse_delay < %shared_ptr<ChainParams>.challenge_delay} ;; {%shared_ptr<ChainParams>.challenge_delay < %shared_ptr<ChainParams>.challenge_interval} ;; {%shared_ptr<ChainParams>.commit_delay < (%shared_ptr<ChainParams>.challenge_interval + -%shared_ptr<ChainParams>.challenge_delay)} ;; !{(%shared_ptr<ChainParams>.time_diff_constant % (%shared_ptr<ChainParams>.vdf_segment_size * 2))} ;; {(%shared_ptr<ChainParams>.max_block_size / 5) < %shared_ptr<ChainParams>.max_tx_cost}
exit !{(%shared_ptr<ChainParams>.max_block_size / 5) < %shared_ptr<ChainParams>.max_tx_cost}
exit !{(%shared_ptr<ChainParams>.time_diff_constant % (%shared_ptr<ChainParams>.vdf_segment_size * 2))}
exit {%shared_ptr<ChainParams>.challenge_delay < %shared_ptr<ChainParams>.challenge_interval}
exit {%shared_ptr<ChainParams>.commit_delay < (%shared_ptr<ChainParams>.challenge_interval + -%shared_ptr<ChainParams>.challenge_delay)}
exit {%shared_ptr<ChainParams>.infuse_delay < %shared_ptr<ChainParams>.challenge_delay}
exit {did read_config("chain.params", %shared_ptr<ChainParams>)}
exit {ret = %shared_ptr<ChainParams>}
fn mmx::check_plot_filter file=include/mmx/utils.h
false {(to_uint256(ctor(hash_t, (("plot_filter" ++ $2) ++ $1))) >> (-$0.plot_filter + 256))}
never throw …
true !{(to_uint256(ctor(hash_t, (("plot_filter" ++ $2) ++ $1))) >> (-$0.plot_filter + 256))}
fn mmx::check_space_fork file=include/mmx/utils.h
false {(to_uint256(ctor(hash_t, (("proof_infusion_check" ++ $1) ++ $2))) % $0.challenge_interval)}
never throw …
true !{(to_uint256(ctor(hash_t, (("proof_infusion_check" ++ $1) ++ $2))) % $0.challenge_interval)}
fn mmx::calc_next_challenge file=include/mmx/utils.h
never break(loop)
never throw …
value fold($1.challenge, ctor(hash_t, ("next_challenge" ++ ~)), $2.vdf_count)
exit {out $3 = ((!{($1.height + 1) < $0.hardfork2_height} && {($0.challenge_interval * $0.max_space_fork_len) < ($1.space_fork_len + $2.vdf_count)}) || {check_space_fork($0, fold($1.challenge, ctor(hash_t, ("next_challenge" ++ ~)), $2.vdf_count), ite({$2.height < $0.hardfork2_height}, $2.proof_hash, $2.proof_chain))})}
exit !{($0.challenge_interval * $0.max_space_fork_len) < ($1.space_fork_len + $2.vdf_count)} | {($1.height + 1) < $0.hardfork2_height} | {ret = ctor(hash_t, (("challenge_infusion" ++ fold($1.challenge, ctor(hash_t, ("next_challenge" ++ ~)), $2.vdf_count)) ++ ite({$2.height < $0.hardfork2_height}, $2.proof_hash, $2.proof_chain)))}
exit !{($1.height + 1) < $0.hardfork2_height} | {check_space_fork($0, fold($1.challenge, ctor(hash_t, ("next_challenge" ++ ~)), $2.vdf_count), ite({$2.height < $0.hardfork2_height}, $2.proof_hash, $2.proof_chain))} | {ret = fold($1.challenge, ctor(hash_t, ("next_challenge" ++ ~)), $2.vdf_count)}
exit !{check_space_fork($0, fold($1.challenge, ctor(hash_t, ("next_challenge" ++ ~)), $2.vdf_count), ite({$2.height < $0.hardfork2_height}, $2.proof_hash, $2.proof_chain))} | {ret = ctor(hash_t, (("challenge_infusion" ++ fold($1.challenge, ctor(hash_t, ("next_challenge" ++ ~)), $2.vdf_count)) ++ ite({$2.height < $0.hardfork2_height}, $2.proof_hash, $2.proof_chain)))}
exit {($0.challenge_interval * $0.max_space_fork_len) < ($1.space_fork_len + $2.vdf_count)} | {check_space_fork($0, fold($1.challenge, ctor(hash_t, ("next_challenge" ++ ~)), $2.vdf_count), ite({$2.height < $0.hardfork2_height}, $2.proof_hash, $2.proof_chain))} | {ret = fold($1.challenge, ctor(hash_t, ("next_challenge" ++ ~)), $2.vdf_count)}
exit !{check_space_fork($0, fold($1.challenge, ctor(hash_t, ("next_challenge" ++ ~)), $2.vdf_count), ite({$2.height < $0.hardfork2_height}, $2.proof_hash, $2.proof_chain))} | {ret = ctor(hash_t, (("challenge_infusion" ++ fold($1.challenge, ctor(hash_t, ("next_challenge" ++ ~)), $2.vdf_count)) ++ ite({$2.height < $0.hardfork2_height}, $2.proof_hash, $2.proof_chain)))}
exit !{($0.challenge_interval * $0.max_space_fork_len) < ($1.space_fork_len + $2.vdf_count)} | {($1.height + 1) < $0.hardfork2_height} | {ret = ctor(hash_t, (("challenge_infusion" ++ fold($1.challenge, ctor(hash_t, ("next_challenge" ++ ~)), $2.vdf_count)) ++ ite({$2.height < $0.hardfork2_height}, $2.proof_hash, $2.proof_chain)))}
exit !{($1.height + 1) < $0.hardfork2_height} | {check_space_fork($0, fold($1.challenge, ctor(hash_t, ("next_challenge" ++ ~)), $2.vdf_count), ite({$2.height < $0.hardfork2_height}, $2.proof_hash, $2.proof_chain))} | {ret = fold($1.challenge, ctor(hash_t, ("next_challenge" ++ ~)), $2.vdf_count)}
exit {($0.challenge_interval * $0.max_space_fork_len) < ($1.space_fork_len + $2.vdf_count)} | {check_space_fork($0, fold($1.challenge, ctor(hash_t, ("next_challenge" ++ ~)), $2.vdf_count), ite({$2.height < $0.hardfork2_height}, $2.proof_hash, $2.proof_chain))} | {ret = fold($1.challenge, ctor(hash_t, ("next_challenge" ++ ~)), $2.vdf_count)}
fn mmx::calc_proof_chain file=include/mmx/utils.h
never throw …
exit !{$1.height < $0.hardfork2_height} | {ret = $2}
exit {$1.height < $0.hardfork2_height} | {ret = ctor(hash_t, (("proof_chain" ++ $1.proof_chain) ++ $2))}
exit !{$1.height < $0.hardfork2_height} | {ret = $2}
exit {$1.height < $0.hardfork2_height} | {ret = ctor(hash_t, (("proof_chain" ++ $1.proof_chain) ++ $2))}
fn mmx::get_plot_challenge file=include/mmx/utils.h
never throw …
exit {ret = ctor(hash_t, (("plot_challenge" ++ $1) ++ $0))}
fn mmx::to_effective_space file=include/mmx/utils.h
never throw …
exit {ret = (wide(($0 * 2464)) / 1000)}
fn mmx::calc_total_netspace file=include/mmx/utils.h
never throw …
exit {ret = to_effective_space(wide(($0.avg_proof_count * $0.space_diff_constant * $1 * 2)))}
fn mmx::check_proof_threshold file=include/mmx/utils.h
false !{$3} | !{(ite({$4}, (to_uint256($2) >> $0.post_filter), to_uint256($2)) >> ($1 + -1)) < wide256(((($1 * 2) + 1) * (wide256((57896044618658097711785492504343953926634992332820282019728792003956564819968 * uint256_1)) / wide(($0.space_diff_constant * $3)))))}
never throw …
true {$3}
true {(ite({$4}, (to_uint256($2) >> $0.post_filter), to_uint256($2)) >> ($1 + -1)) < wide256(((($1 * 2) + 1) * (wide256((57896044618658097711785492504343953926634992332820282019728792003956564819968 * uint256_1)) / wide(($0.space_diff_constant * $3)))))}
fn mmx::get_proof_score file=include/mmx/utils.h
never throw …
exit {ret = at($0.bytes, 0)}
fn mmx::get_block_iters file=include/mmx/utils.h
never throw …
exit {ret = ($0.time_diff_constant * ($1 / $0.time_diff_divider))}
fn mmx::calc_proof_hash file=include/mmx/utils.h
each elem($1) = to_little_endian(elem($1))
never break($1)
never throw …
exit {did elem($1) = to_little_endian(elem($1))}
exit {ret = ctor(hash_t, ($0 ++ ctor(hash_t, data($1), (4 * size($1)))))}
fn mmx::calc_project_reward file=include/mmx/utils.h
never throw …
exit {ret = min(($0.fixed_project_reward + (($0.project_ratio.value * $1) / $0.project_ratio.inverse)), ($1 / 2))}
fn mmx::calc_min_reward_deduction file=include/mmx/utils.h
never throw …
exit {ret = min($1, max(($1 / 8640), 1000))}
fn mmx::calc_final_block_reward file=include/mmx/utils.h
never throw …
exit {ret = ($1 + $2 + -max(($2 / 2), calc_project_reward($0, $2)))}
fn mmx::calc_new_base_reward file=include/mmx/utils.h
never throw …
exit !{$1.reward_vote_count < ($0.reward_adjust_interval / 2)} | {ret = $1.base_reward}
exit {$1.reward_vote_count < ($0.reward_adjust_interval / 2)} | {ret = max(0, min(($1.base_reward + ite({0 < $1.reward_vote_sum}, max($0.reward_adjust_tick, ($1.base_reward / $0.reward_adjust_div)), ite({-1 < $1.reward_vote_sum}, 0, (-max($0.reward_adjust_tick, ($1.base_reward / $0.reward_adjust_div)))))), 4200000000000))}
exit !{$1.reward_vote_count < ($0.reward_adjust_interval / 2)} | {ret = $1.base_reward}
exit {$1.reward_vote_count < ($0.reward_adjust_interval / 2)} | {ret = max(0, min(($1.base_reward + ite({0 < $1.reward_vote_sum}, max($0.reward_adjust_tick, ($1.base_reward / $0.reward_adjust_div)), ite({-1 < $1.reward_vote_sum}, 0, (-max($0.reward_adjust_tick, ($1.base_reward / $0.reward_adjust_div)))))), 4200000000000))}
fn mmx::get_effective_plot_size file=include/mmx/utils.h
never throw …
exit {ret = to_effective_space(w128((w64((($0 * 2) + 1)) << ($0 + -1))))}
fn mmx::calc_new_space_diff file=include/mmx/utils.h
never throw …
exit !{$1.space_fork_len} | !{($0.avg_proof_count * $1.space_fork_len) < $1.space_fork_proofs} | {($1.space_diff / 281474976710656)} | {ret = ($1.space_diff + max((ite({($0.avg_proof_count * $1.space_fork_len) < $1.space_fork_proofs}, ((wide(($1.space_diff * $1.space_fork_proofs)) / ($0.avg_proof_count * $1.space_fork_len)) + -$1.space_diff), ($1.space_diff + -(wide(($1.space_diff * $1.space_fork_proofs)) / ($0.avg_proof_count * $1.space_fork_len)))) / max((($0.challenge_interval * 16) / $1.space_fork_len), 1)), 1))}
exit !{$1.space_fork_len} | !{max((ite({($0.avg_proof_count * $1.space_fork_len) < $1.space_fork_proofs}, ((wide(($1.space_diff * $1.space_fork_proofs)) / ($0.avg_proof_count * $1.space_fork_len)) + -$1.space_diff), ($1.space_diff + -(wide(($1.space_diff * $1.space_fork_proofs)) / ($0.avg_proof_count * $1.space_fork_len)))) / max((($0.challenge_interval * 16) / $1.space_fork_len), 1)), 1) < $1.space_diff} | {($0.avg_proof_count * $1.space_fork_len) < $1.space_fork_proofs} | {($1.space_diff / 281474976710656)} | {ret = ($1.space_diff + -max((ite({($0.avg_proof_count * $1.space_fork_len) < $1.space_fork_proofs}, ((wide(($1.space_diff * $1.space_fork_proofs)) / ($0.avg_proof_count * $1.space_fork_len)) + -$1.space_diff), ($1.space_diff + -(wide(($1.space_diff * $1.space_fork_proofs)) / ($0.avg_proof_count * $1.space_fork_len)))) / max((($0.challenge_interval * 16) / $1.space_fork_len), 1)), 1))}
exit !{$1.space_fork_len} | {($0.avg_proof_count * $1.space_fork_len) < $1.space_fork_proofs} | {($1.space_diff / 281474976710656)} | {max((ite({($0.avg_proof_count * $1.space_fork_len) < $1.space_fork_proofs}, ((wide(($1.space_diff * $1.space_fork_proofs)) / ($0.avg_proof_count * $1.space_fork_len)) + -$1.space_diff), ($1.space_diff + -(wide(($1.space_diff * $1.space_fork_proofs)) / ($0.avg_proof_count * $1.space_fork_len)))) / max((($0.challenge_interval * 16) / $1.space_fork_len), 1)), 1) < $1.space_diff} | {ret = 1}
exit !{($1.space_diff / 281474976710656)} | {ret = ($1.space_diff + -($1.space_diff / 1024))}
exit {$1.space_fork_len} | {($1.space_diff / 281474976710656)} | {ret = $1.space_diff}
exit !{($1.space_diff / 281474976710656)} | {ret = ($1.space_diff + -($1.space_diff / 1024))}
exit {$1.space_fork_len} | {($1.space_diff / 281474976710656)} | {ret = $1.space_diff}
exit !{$1.space_fork_len} | !{($0.avg_proof_count * $1.space_fork_len) < $1.space_fork_proofs} | {($1.space_diff / 281474976710656)} | {ret = ($1.space_diff + max((ite({($0.avg_proof_count * $1.space_fork_len) < $1.space_fork_proofs}, ((wide(($1.space_diff * $1.space_fork_proofs)) / ($0.avg_proof_count * $1.space_fork_len)) + -$1.space_diff), ($1.space_diff + -(wide(($1.space_diff * $1.space_fork_proofs)) / ($0.avg_proof_count * $1.space_fork_len)))) / max((($0.challenge_interval * 16) / $1.space_fork_len), 1)), 1))}
exit !{$1.space_fork_len} | !{max((ite({($0.avg_proof_count * $1.space_fork_len) < $1.space_fork_proofs}, ((wide(($1.space_diff * $1.space_fork_proofs)) / ($0.avg_proof_count * $1.space_fork_len)) + -$1.space_diff), ($1.space_diff + -(wide(($1.space_diff * $1.space_fork_proofs)) / ($0.avg_proof_count * $1.space_fork_len)))) / max((($0.challenge_interval * 16) / $1.space_fork_len), 1)), 1) < $1.space_diff} | {($0.avg_proof_count * $1.space_fork_len) < $1.space_fork_proofs} | {($1.space_diff / 281474976710656)} | {ret = ($1.space_diff + -max((ite({($0.avg_proof_count * $1.space_fork_len) < $1.space_fork_proofs}, ((wide(($1.space_diff * $1.space_fork_proofs)) / ($0.avg_proof_count * $1.space_fork_len)) + -$1.space_diff), ($1.space_diff + -(wide(($1.space_diff * $1.space_fork_proofs)) / ($0.avg_proof_count * $1.space_fork_len)))) / max((($0.challenge_interval * 16) / $1.space_fork_len), 1)), 1))}
exit !{$1.space_fork_len} | {($0.avg_proof_count * $1.space_fork_len) < $1.space_fork_proofs} | {($1.space_diff / 281474976710656)} | {max((ite({($0.avg_proof_count * $1.space_fork_len) < $1.space_fork_proofs}, ((wide(($1.space_diff * $1.space_fork_proofs)) / ($0.avg_proof_count * $1.space_fork_len)) + -$1.space_diff), ($1.space_diff + -(wide(($1.space_diff * $1.space_fork_proofs)) / ($0.avg_proof_count * $1.space_fork_len)))) / max((($0.challenge_interval * 16) / $1.space_fork_len), 1)), 1) < $1.space_diff} | {ret = 1}
fn mmx::calc_new_netspace_ratio file=include/mmx/utils.h
never throw …
exit {ret = ((($1 * ((1 << $0.max_diff_adjust) + -1)) + ite({$2}, (1 << ($0.max_diff_adjust * 2)), 0)) >> $0.max_diff_adjust)}
fn mmx::calc_new_txfee_buffer file=include/mmx/utils.h
never throw …
exit {ret = ($1.tx_fees + $1.txfee_buffer + -calc_min_reward_deduction($0, $1.txfee_buffer))}
fn mmx::calc_block_weight file=include/mmx/utils.h
never throw …
exit !{empty($1.proof)} | {ret = 0}
exit {empty($1.proof)} | {ret = wide(($0.avg_proof_count * ((($1.vdf_iters + -$2.vdf_iters) / $1.vdf_count) / $0.time_diff_constant) * at($1.proof, 0).difficulty))}
exit !{empty($1.proof)} | {ret = 0}
exit {empty($1.proof)} | {ret = wide(($0.avg_proof_count * ((($1.vdf_iters + -$2.vdf_iters) / $1.vdf_count) / $0.time_diff_constant) * at($1.proof, 0).difficulty))}
fn mmx::get_vdf_speed file=include/mmx/utils.h
never throw …
exit {ret = ((wide(($0.time_diff_constant * $1 * 1000)) / $0.time_diff_divider) / $0.block_interval_ms)}
fn mmx::get_finger_print file=include/mmx/utils.h
never break(loop)
never throw …
value fold(ctor(hash_t), ctor(hash_t, ((~ ++ $0) ++ ite({$1}, ctor(hash_t, ("MMX/fingerprint/" ++ $1)), ctor(hash_t)))), 16384)
exit {ret = to_string(to_uint(fold(ctor(hash_t), ctor(hash_t, ((~ ++ $0) ++ ite({$1}, ctor(hash_t, ("MMX/fingerprint/" ++ $1)), ctor(hash_t)))), 16384), false))}
fn mmx::get_transaction_version file=include/mmx/utils.h
never throw …
exit !{$1 < $0.hardfork2_height} | {ret = 0}
exit {$1 < $0.hardfork2_height} | {ret = 1}
exit !{$1 < $0.hardfork2_height} | {ret = 0}
exit {$1 < $0.hardfork2_height} | {ret = 1}
