tus src/Node_verify.cpp src/Node.cpp src/Node_update.cpp
fn mmx::Node::verify_vdf
each validate($0) ;; {is_valid($0)}
each add_task(@vdf_threads, bind(&verify_vdf_task, this, $0, $1)) ;; {is_valid($0)} ;; {get_header($0.prev)} ;; {$0.num_iters == get_block_iters(@params, get_time_diff(get_header($0.prev)))} ;; {$0.segment_size == @params.vdf_segment_size} ;; {($0.segment_size * size($0.segments)) == get_block_iters(@params, get_time_diff(get_header($0.prev)))}
each insert(@vdf_verify_pending, $0.hash) ;; {is_valid($0)} ;; {get_header($0.prev)} ;; {$0.num_iters == get_block_iters(@params, get_time_diff(get_header($0.prev)))} ;; {$0.segment_size == @params.vdf_segment_size} ;; {($0.segment_size * size($0.segments)) == get_block_iters(@params, get_time_diff(get_header($0.prev)))}
each at(@timelord_trust, $0.timelord_key) = (at(@timelord_trust, $0.timelord_key) + -1) ;; {is_valid($0)} ;; {get_header($0.prev)} ;; {$0.num_iters == get_block_iters(@params, get_time_diff(get_header($0.prev)))} ;; {$0.segment_size == @params.vdf_segment_size} ;; {($0.segment_size * size($0.segments)) == get_block_iters(@params, get_time_diff(get_header($0.prev)))}
raise !{is_valid($0)}
raise {is_valid($0)} ;; !{get_header($0.prev)}
raise {is_valid($0)} ;; {get_header($0.prev)} ;; !{$0.num_iters == get_block_iters(@params, get_time_diff(get_header($0.prev)))}
raise {is_valid($0)} ;; {get_header($0.prev)} ;; {$0.num_iters == get_block_iters(@params, get_time_diff(get_header($0.prev)))} ;; !{$0.segment_size == @params.vdf_segment_size}
raise {is_valid($0)} ;; {get_header($0.prev)} ;; {$0.num_iters == get_block_iters(@params, get_time_diff(get_header($0.prev)))} ;; {$0.segment_size == @params.vdf_segment_size} ;; !{($0.segment_size * size($0.segments)) == get_block_iters(@params, get_time_diff(get_header($0.prev)))}
exit {$0.num_iters == get_block_iters(@params, get_time_diff(get_header($0.prev)))}
exit {$0.segment_size == @params.vdf_segment_size}
exit {($0.segment_size * size($0.segments)) == get_block_iters(@params, get_time_diff(get_header($0.prev)))}
exit {did add_task(@vdf_threads, bind(&verify_vdf_task, this, $0, $1))}
exit {did at(@timelord_trust, $0.timelord_key) = (at(@timelord_trust, $0.timelord_key) + -1)}
exit {did insert(@vdf_verify_pending, $0.hash)}
exit {did validate($0)}
exit {get_header($0.prev)}
exit {is_valid($0)}
at validate($0)
at add_task(@vdf_threads, bind(&verify_vdf_task, this, $0, $1))
at insert(@vdf_verify_pending, $0.hash)
at at(@timelord_trust, $0.timelord_key) = (at(@timelord_trust, $0.timelord_key) + -1)
at add_task(@vdf_threads, bind(&verify_vdf_task, this, $0, $1)) ;; {$0.num_iters == get_block_iters(@params, get_time_diff(get_header($0.prev)))} ;; {$0.segment_size == @params.vdf_segment_size} ;; {($0.segment_size * size($0.segments)) == get_block_iters(@params, get_time_diff(get_header($0.prev)))} ;; {did validate($0)} ;; {get_header($0.prev)} ;; {is_valid($0)}
fn mmx::Node::verify_vdf_cpu
at data(at(%hash_t[16], fold(0, (~ + 2)))) ;; !{empty($0.segments)} ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))}
at memcpy(%unsignedchar[64], data(at(%hash_t[16], fold(0, (~ + 2)))), 32) ;; !{empty($0.segments)} ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))}
at data(at(%hash_t[16], (fold(0, (~ + 2)) + 1))) ;; !{empty($0.segments)} ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))}
at memcpy((%unsignedchar[64] + 32), data(at(%hash_t[16], (fold(0, (~ + 2)) + 1))), 32) ;; !{empty($0.segments)} ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))}
at recursive_sha256_ni_x2(%unsignedchar[64], $0.segment_size) ;; !{empty($0.segments)} ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))} ;; {sha256_ni_available()}
at recursive_sha256_arm_x2(%unsignedchar[64], $0.segment_size) ;; !{empty($0.segments)} ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))} ;; !{sha256_ni_available()} ;; {sha256_arm_available()}
at memcpy(data(at(%hash_t[16], fold(0, (~ + 2)))), %unsignedchar[64], 32) ;; !{empty($0.segments)} ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))}
at memcpy(data(at(%hash_t[16], (fold(0, (~ + 2)) + 1))), (%unsignedchar[64] + 32), 32) ;; !{empty($0.segments)} ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))}
each at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments)))))) = at($0.segments, ((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))) + -1)) ;; !{empty($0.segments)} ;; {((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))}
each at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments)))))) = ctor(hash_t, ($0.input ++ $0.prev)) ;; !{empty($0.segments)} ;; !{((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))}
each at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments)))))) = ctor(hash_t, (at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments)))))) ++ $0.reward_addr)) ;; !{empty($0.segments)} ;; !{((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))}
each data(at(%hash_t[16], fold(0, (~ + 2)))) ;; !{empty($0.segments)} ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))}
each memcpy(%unsignedchar[64], data(at(%hash_t[16], fold(0, (~ + 2)))), 32) ;; !{empty($0.segments)} ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))}
each data(at(%hash_t[16], (fold(0, (~ + 2)) + 1))) ;; !{empty($0.segments)} ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))}
each memcpy((%unsignedchar[64] + 32), data(at(%hash_t[16], (fold(0, (~ + 2)) + 1))), 32) ;; !{empty($0.segments)} ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))}
each recursive_sha256_ni_x2(%unsignedchar[64], $0.segment_size) ;; !{empty($0.segments)} ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))} ;; {sha256_ni_available()}
each recursive_sha256_arm_x2(%unsignedchar[64], $0.segment_size) ;; !{empty($0.segments)} ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))} ;; !{sha256_ni_available()} ;; {sha256_arm_available()}
each memcpy(data(at(%hash_t[16], fold(0, (~ + 2)))), %unsignedchar[64], 32) ;; !{empty($0.segments)} ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))}
each memcpy(data(at(%hash_t[16], (fold(0, (~ + 2)) + 1))), (%unsignedchar[64] + 32), 32) ;; !{empty($0.segments)} ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))}
each data(at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))) ;; !{empty($0.segments)} ;; !{sha256_ni_available()} ;; !{sha256_arm_available()}
each memcpy(at(%unsignedchar[16][64], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments)))))), data(at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))), 32) ;; !{empty($0.segments)} ;; !{sha256_ni_available()} ;; !{sha256_arm_available()}
each sha256_64_x8(at(%unsignedchar[16][32], 0), at(%unsignedchar[16][64], 0), 32) ;; !{empty($0.segments)} ;; !{sha256_ni_available()} ;; !{sha256_arm_available()}
each sha256_64_x8(at(%unsignedchar[16][32], 8), at(%unsignedchar[16][64], 8), 32) ;; !{empty($0.segments)} ;; !{sha256_ni_available()} ;; !{sha256_arm_available()}
each memcpy(data(at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))), at(%unsignedchar[16][32], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments)))))), 32) ;; !{empty($0.segments)} ;; !{sha256_ni_available()} ;; !{sha256_arm_available()}
each compare_exchange_strong(0, 0, ((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))) + 1), std::memory_order_relaxed) ;; !{empty($0.segments)} ;; !{at($0.segments, ((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))) == at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))}
raise {empty($0.segments)}
raise !{empty($0.segments)} ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))} ;; !{sha256_ni_available()} ;; !{sha256_arm_available()}
value fold(0, (~ + 2))
exit !{empty($0.segments)}
exit !{((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))} | {did at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments)))))) = at($0.segments, ((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))) + -1))}
exit !{fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))} | !{sha256_arm_available()}
exit !{fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))} | !{sha256_ni_available()}
exit !{sha256_arm_available()} | {did data(at(%hash_t[16], (fold(0, (~ + 2)) + 1)))}
exit !{sha256_arm_available()} | {did data(at(%hash_t[16], fold(0, (~ + 2))))}
exit !{sha256_ni_available()} | {did data(at(%hash_t[16], (fold(0, (~ + 2)) + 1)))}
exit !{sha256_ni_available()} | {did data(at(%hash_t[16], fold(0, (~ + 2))))}
exit {((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))} | {did at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments)))))) = ctor(hash_t, ($0.input ++ $0.prev))}
exit {((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))} | {did at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments)))))) = ctor(hash_t, (at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments)))))) ++ $0.reward_addr))}
exit {at($0.segments, ((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))) == at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))} | {did break(loop)}
exit {at($0.segments, ((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))) == at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))} | {did compare_exchange_strong(0, 0, ((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))) + 1), std::memory_order_relaxed)}
exit {did data(at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments)))))))} | {sha256_arm_available()} | {sha256_ni_available()}
at at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments)))))) = at($0.segments, ((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))) + -1)) ;; {((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))}
at at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments)))))) = ctor(hash_t, ($0.input ++ $0.prev)) ;; !{((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))}
at at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments)))))) = ctor(hash_t, (at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments)))))) ++ $0.reward_addr)) ;; !{((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))}
at data(at(%hash_t[16], fold(0, (~ + 2)))) ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))}
at data(at(%hash_t[16], (fold(0, (~ + 2)) + 1))) ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))}
at recursive_sha256_ni_x2(%unsignedchar[64], $0.segment_size) ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))} ;; {sha256_ni_available()}
at recursive_sha256_arm_x2(%unsignedchar[64], $0.segment_size) ;; {sha256_arm_available()} | {sha256_ni_available()} ;; {fold(0, (~ + 2)) < min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))} ;; !{sha256_ni_available()} ;; {sha256_arm_available()}
at data(at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))) ;; !{sha256_ni_available()} ;; !{sha256_arm_available()}
at sha256_64_x8(at(%unsignedchar[16][32], 0), at(%unsignedchar[16][64], 0), 32) ;; !{sha256_ni_available()} ;; !{sha256_arm_available()}
at sha256_64_x8(at(%unsignedchar[16][32], 8), at(%unsignedchar[16][64], 8), 32) ;; !{sha256_ni_available()} ;; !{sha256_arm_available()}
at compare_exchange_strong(0, 0, ((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))) + 1), std::memory_order_relaxed) ;; !{at($0.segments, ((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))) == at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))}
never break(loop) ;; !{at($0.segments, ((16 * idx(u32(((size($0.segments) + 15) / 16)))) + idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))) == at(%hash_t[16], idx(min(16, u32((-(16 * idx(u32(((size($0.segments) + 15) / 16)))) + size($0.segments))))))}
fn mmx::Node::verify_vdf_success
each erase(@vdf_verify_pending, $0.proof.hash)
each reset(@stuck_timer) ;; {$0.input == back(find_next_vdf_points(get_peak())).output} | {empty(find_next_vdf_points(get_peak()))} ;; !{empty(find_next_vdf_points(get_peak()))} | {$0.input == get_peak().vdf_output} ;; {$0.input == back(find_next_vdf_points(get_peak())).output} | {$0.input == get_peak().vdf_output} ;; {size(find_next_vdf_points(get_peak())) < @params.max_vdf_count}
each at(@timelord_trust, $0.proof.timelord_key) = (at(@timelord_trust, $0.proof.timelord_key) + 2) ;; {$0.input == back(find_next_vdf_points(get_peak())).output} | {empty(find_next_vdf_points(get_peak()))} ;; !{empty(find_next_vdf_points(get_peak()))} | {$0.input == get_peak().vdf_output} ;; {$0.input == back(find_next_vdf_points(get_peak())).output} | {$0.input == get_peak().vdf_output} ;; {size(find_next_vdf_points(get_peak())) < @params.max_vdf_count}
each publish($0.proof, @output_verified_vdfs, 0) ;; {$0.input == back(find_next_vdf_points(get_peak())).output} | {empty(find_next_vdf_points(get_peak()))} ;; !{empty(find_next_vdf_points(get_peak()))} | {$0.input == get_peak().vdf_output} ;; {$0.input == back(find_next_vdf_points(get_peak())).output} | {$0.input == get_peak().vdf_output} ;; {size(find_next_vdf_points(get_peak())) < @params.max_vdf_count}
each insert(@vdf_tree, $0.output, $0)
each insert(@vdf_index, ($0.num_iters + $0.start), $0)
each publish($0, @output_vdf_points, 0)
each trigger_update()
never throw …
exit {did erase(@vdf_verify_pending, $0.proof.hash)}
exit !{size(find_next_vdf_points(get_peak())) < @params.max_vdf_count} | {did insert(@vdf_index, ($0.num_iters + $0.start), $0)}
exit !{size(find_next_vdf_points(get_peak())) < @params.max_vdf_count} | {did insert(@vdf_tree, $0.output, $0)}
exit !{size(find_next_vdf_points(get_peak())) < @params.max_vdf_count} | {did publish($0, @output_vdf_points, 0)}
exit !{size(find_next_vdf_points(get_peak())) < @params.max_vdf_count} | {did trigger_update()}
exit !{empty(find_next_vdf_points(get_peak()))} | {$0.input == get_peak().vdf_output} | {did insert(@vdf_index, ($0.num_iters + $0.start), $0)}
exit !{empty(find_next_vdf_points(get_peak()))} | {$0.input == get_peak().vdf_output} | {did insert(@vdf_tree, $0.output, $0)}
exit !{empty(find_next_vdf_points(get_peak()))} | {$0.input == get_peak().vdf_output} | {did publish($0, @output_vdf_points, 0)}
exit !{empty(find_next_vdf_points(get_peak()))} | {$0.input == get_peak().vdf_output} | {did trigger_update()}
exit {$0.input == back(find_next_vdf_points(get_peak())).output} | {$0.input == get_peak().vdf_output} | {did insert(@vdf_index, ($0.num_iters + $0.start), $0)}
exit {$0.input == back(find_next_vdf_points(get_peak())).output} | {$0.input == get_peak().vdf_output} | {did insert(@vdf_tree, $0.output, $0)}
exit {$0.input == back(find_next_vdf_points(get_peak())).output} | {$0.input == get_peak().vdf_output} | {did publish($0, @output_vdf_points, 0)}
exit {$0.input == back(find_next_vdf_points(get_peak())).output} | {$0.input == get_peak().vdf_output} | {did trigger_update()}
exit {$0.input == back(find_next_vdf_points(get_peak())).output} | {did insert(@vdf_index, ($0.num_iters + $0.start), $0)} | {empty(find_next_vdf_points(get_peak()))}
exit {$0.input == back(find_next_vdf_points(get_peak())).output} | {did insert(@vdf_tree, $0.output, $0)} | {empty(find_next_vdf_points(get_peak()))}
exit {$0.input == back(find_next_vdf_points(get_peak())).output} | {did publish($0, @output_vdf_points, 0)} | {empty(find_next_vdf_points(get_peak()))}
exit {$0.input == back(find_next_vdf_points(get_peak())).output} | {did trigger_update()} | {empty(find_next_vdf_points(get_peak()))}
exit !{$0.input == back(find_next_vdf_points(get_peak())).output} | !{size(find_next_vdf_points(get_peak())) < @params.max_vdf_count} | {did at(@timelord_trust, $0.proof.timelord_key) = (at(@timelord_trust, $0.proof.timelord_key) + 2)} | {empty(find_next_vdf_points(get_peak()))}
exit !{$0.input == back(find_next_vdf_points(get_peak())).output} | !{size(find_next_vdf_points(get_peak())) < @params.max_vdf_count} | {did publish($0.proof, @output_verified_vdfs, 0)} | {empty(find_next_vdf_points(get_peak()))}
exit !{$0.input == back(find_next_vdf_points(get_peak())).output} | !{size(find_next_vdf_points(get_peak())) < @params.max_vdf_count} | {did reset(@stuck_timer)} | {empty(find_next_vdf_points(get_peak()))}
exit !{$0.input == get_peak().vdf_output} | !{empty(find_next_vdf_points(get_peak()))} | !{size(find_next_vdf_points(get_peak())) < @params.max_vdf_count} | {did at(@timelord_trust, $0.proof.timelord_key) = (at(@timelord_trust, $0.proof.timelord_key) + 2)}
exit !{$0.input == get_peak().vdf_output} | !{empty(find_next_vdf_points(get_peak()))} | !{size(find_next_vdf_points(get_peak())) < @params.max_vdf_count} | {did publish($0.proof, @output_verified_vdfs, 0)}
exit !{$0.input == get_peak().vdf_output} | !{empty(find_next_vdf_points(get_peak()))} | !{size(find_next_vdf_points(get_peak())) < @params.max_vdf_count} | {did reset(@stuck_timer)}
at erase(@vdf_verify_pending, $0.proof.hash)
at reset(@stuck_timer) ;; {$0.input == back(find_next_vdf_points(get_peak())).output} | {empty(find_next_vdf_points(get_peak()))} ;; !{empty(find_next_vdf_points(get_peak()))} | {$0.input == get_peak().vdf_output} ;; {$0.input == back(find_next_vdf_points(get_peak())).output} | {$0.input == get_peak().vdf_output} ;; {size(find_next_vdf_points(get_peak())) < @params.max_vdf_count}
at at(@timelord_trust, $0.proof.timelord_key) = (at(@timelord_trust, $0.proof.timelord_key) + 2) ;; {$0.input == back(find_next_vdf_points(get_peak())).output} | {empty(find_next_vdf_points(get_peak()))} ;; !{empty(find_next_vdf_points(get_peak()))} | {$0.input == get_peak().vdf_output} ;; {$0.input == back(find_next_vdf_points(get_peak())).output} | {$0.input == get_peak().vdf_output} ;; {size(find_next_vdf_points(get_peak())) < @params.max_vdf_count}
at publish($0.proof, @output_verified_vdfs, 0) ;; {$0.input == back(find_next_vdf_points(get_peak())).output} | {empty(find_next_vdf_points(get_peak()))} ;; !{empty(find_next_vdf_points(get_peak()))} | {$0.input == get_peak().vdf_output} ;; {$0.input == back(find_next_vdf_points(get_peak())).output} | {$0.input == get_peak().vdf_output} ;; {size(find_next_vdf_points(get_peak())) < @params.max_vdf_count}
at insert(@vdf_tree, $0.output, $0) ;; !{$0.input == back(find_next_vdf_points(get_peak())).output} | {empty(find_next_vdf_points(get_peak()))} | {size(find_next_vdf_points(get_peak())) < @params.max_vdf_count} ;; !{$0.input == get_peak().vdf_output} | !{empty(find_next_vdf_points(get_peak()))} | {size(find_next_vdf_points(get_peak())) < @params.max_vdf_count}
at insert(@vdf_index, ($0.num_iters + $0.start), $0) ;; !{$0.input == back(find_next_vdf_points(get_peak())).output} | {empty(find_next_vdf_points(get_peak()))} | {size(find_next_vdf_points(get_peak())) < @params.max_vdf_count} ;; !{$0.input == get_peak().vdf_output} | !{empty(find_next_vdf_points(get_peak()))} | {size(find_next_vdf_points(get_peak())) < @params.max_vdf_count}
at publish($0, @output_vdf_points, 0) ;; !{$0.input == back(find_next_vdf_points(get_peak())).output} | {empty(find_next_vdf_points(get_peak()))} | {size(find_next_vdf_points(get_peak())) < @params.max_vdf_count} ;; !{$0.input == get_peak().vdf_output} | !{empty(find_next_vdf_points(get_peak()))} | {size(find_next_vdf_points(get_peak())) < @params.max_vdf_count}
at trigger_update() ;; !{$0.input == back(find_next_vdf_points(get_peak())).output} | {empty(find_next_vdf_points(get_peak()))} | {size(find_next_vdf_points(get_peak())) < @params.max_vdf_count} ;; !{$0.input == get_peak().vdf_output} | !{empty(find_next_vdf_points(get_peak()))} | {size(find_next_vdf_points(get_peak())) < @params.max_vdf_count}
fn mmx::Node::verify_vdf_task
never break(loop)
each wait(@vdf_signal, fold(lock_guard(@vdf_mutex), out(wait‥))) ;; {@opencl_vdf_enable} ;; {empty(@opencl_vdf)}
each pop_back(@opencl_vdf) ;; {@opencl_vdf_enable}
each compute(back(@opencl_vdf), $0) ;; {@opencl_vdf_enable} ;; {back(@opencl_vdf)}
each verify(back(@opencl_vdf), $0) ;; {@opencl_vdf_enable} ;; {back(@opencl_vdf)}
each verify_vdf_cpu($0) ;; !{@opencl_vdf_enable} | !{back(@opencl_vdf)}
each %shared_ptr<VDF_Point>.vdf_height = $0.vdf_height
each %shared_ptr<VDF_Point>.start = $0.start
each %shared_ptr<VDF_Point>.num_iters = $0.num_iters
each %shared_ptr<VDF_Point>.input = $0.input
each %shared_ptr<VDF_Point>.output = get_output($0)
each %shared_ptr<VDF_Point>.prev = $0.prev
each %shared_ptr<VDF_Point>.reward_addr = $0.reward_addr
each %shared_ptr<VDF_Point>.recv_time = $1
each %shared_ptr<VDF_Point>.proof = $0
each %shared_ptr<VDF_Point>.content_hash = calc_hash(%shared_ptr<VDF_Point>)
each add_task(bind(&verify_vdf_success, this, %shared_ptr<VDF_Point>, 0))
each add_task(lambda)
each at(@timelord_trust, $0.timelord_key) = (min(0, at(@timelord_trust, $0.timelord_key)) + -100)
each erase(@vdf_verify_pending, $0.hash)
each trigger_update()
each push_back(@opencl_vdf, ite({‥}, maybe(0), ite({@opencl_vdf_enable}, back(@opencl_vdf), 0))) ;; {@opencl_vdf_enable} | {maybe(0)} ;; {back(@opencl_vdf)} | {maybe(0)}
each notify_all(@vdf_signal)
never throw …
value fold(lock_guard(@vdf_mutex), out(wait#v))
exit {did notify_all(@vdf_signal)}
at lock_guard(@vdf_mutex)
at wait(@vdf_signal, fold(lock_guard(@vdf_mutex), out(wait‥))) ;; {@opencl_vdf_enable} ;; {empty(@opencl_vdf)}
at pop_back(@opencl_vdf) ;; {@opencl_vdf_enable} ;; !{empty(@opencl_vdf)}
at compute(back(@opencl_vdf), $0) ;; {@opencl_vdf_enable} ;; {back(@opencl_vdf)} ;; !{empty(@opencl_vdf)}
at verify(back(@opencl_vdf), $0) ;; {@opencl_vdf_enable} ;; {back(@opencl_vdf)} ;; !{empty(@opencl_vdf)}
at verify_vdf_cpu($0) ;; !{@opencl_vdf_enable} | !{back(@opencl_vdf)} ;; !{@opencl_vdf_enable} | !{empty(@opencl_vdf)}
at %shared_ptr<VDF_Point>.vdf_height = $0.vdf_height ;; !{@opencl_vdf_enable} | !{empty(@opencl_vdf)}
at %shared_ptr<VDF_Point>.start = $0.start ;; !{@opencl_vdf_enable} | !{empty(@opencl_vdf)}
at %shared_ptr<VDF_Point>.num_iters = $0.num_iters ;; !{@opencl_vdf_enable} | !{empty(@opencl_vdf)}
at %shared_ptr<VDF_Point>.input = $0.input ;; !{@opencl_vdf_enable} | !{empty(@opencl_vdf)}
at %shared_ptr<VDF_Point>.output = get_output($0) ;; !{@opencl_vdf_enable} | !{empty(@opencl_vdf)}
at %shared_ptr<VDF_Point>.prev = $0.prev ;; !{@opencl_vdf_enable} | !{empty(@opencl_vdf)}
at %shared_ptr<VDF_Point>.reward_addr = $0.reward_addr ;; !{@opencl_vdf_enable} | !{empty(@opencl_vdf)}
at %shared_ptr<VDF_Point>.recv_time = $1 ;; !{@opencl_vdf_enable} | !{empty(@opencl_vdf)}
at %shared_ptr<VDF_Point>.proof = $0 ;; !{@opencl_vdf_enable} | !{empty(@opencl_vdf)}
at %shared_ptr<VDF_Point>.content_hash = calc_hash(%shared_ptr<VDF_Point>) ;; !{@opencl_vdf_enable} | !{empty(@opencl_vdf)}
at add_task(bind(&verify_vdf_success, this, %shared_ptr<VDF_Point>, 0)) ;; !{@opencl_vdf_enable} | !{empty(@opencl_vdf)}
at add_task(lambda)
at at(@timelord_trust, $0.timelord_key) = (min(0, at(@timelord_trust, $0.timelord_key)) + -100)
at erase(@vdf_verify_pending, $0.hash)
at trigger_update()
at push_back(@opencl_vdf, ite({…}, maybe(0), ite({@opencl_vdf_enable}, back(@opencl_vdf), 0))) ;; {@opencl_vdf_enable} | {maybe(0)} ;; {back(@opencl_vdf)} | {maybe(0)}
at notify_all(@vdf_signal)
at add_task(bind(&verify_vdf_success, …)) ;; {did verify_vdf_cpu($0)} | {did verify(back(@opencl_vdf), $0)} ;; !{@opencl_vdf_enable} | !{empty(@opencl_vdf)}
fn mmx::Node::verify_vdfs
each at(%unordered_map<hash_t,unsignedint>, elem(@fork_index).second.block.vdf_output) = elem(@fork_index).second.block.vdf_height ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; {elem(@fork_index).second.is_all_proof_verified}
each at(%unordered_map<hash_t,unsignedint>, get_root().vdf_output) = get_root().vdf_height ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending}
each at(%unordered_map<hash_t,unsignedint>, elem(@vdf_index).second.output) = (find_value(%unordered_map<hash_t,unsignedint>, elem(@vdf_index).second.input) + 1) ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; {find_value(%unordered_map<hash_t,unsignedint>, elem(@vdf_index).second.input)}
each push_back(%vector<pair<shared_ptr<ProofOfTime>,long>>, elem(@vdf_queue)) ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; !{elem(@vdf_queue).first.start < get_root().vdf_iters} ;; !{(10 * @params.block_interval_ms) < (-elem(@vdf_queue).second + get_time_ms())} ;; !{find_vdf_point(elem(@vdf_queue).first.input, get_output(elem(@vdf_queue).first))} ;; !{get_header(elem(@vdf_queue).first.prev)} | !{has(%unordered_map<hash_t,unsignedint>, elem(@vdf_queue).first.input)}
each %shared_ptr<vdf_fork_t>.height = find_value(%unordered_map<hash_t,unsignedint>, elem(@vdf_queue).first.input, 0) ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; !{elem(@vdf_queue).first.start < get_root().vdf_iters} ;; !{(10 * @params.block_interval_ms) < (-elem(@vdf_queue).second + get_time_ms())} ;; !{find_vdf_point(elem(@vdf_queue).first.input, get_output(elem(@vdf_queue).first))} ;; {get_header(elem(@vdf_queue).first.prev)} ;; {has(%unordered_map<hash_t,unsignedint>, elem(@vdf_queue).first.input)}
each %shared_ptr<vdf_fork_t>.trust = find_value(@timelord_trust, elem(@vdf_queue).first.timelord_key, 0) ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; !{elem(@vdf_queue).first.start < get_root().vdf_iters} ;; !{(10 * @params.block_interval_ms) < (-elem(@vdf_queue).second + get_time_ms())} ;; !{find_vdf_point(elem(@vdf_queue).first.input, get_output(elem(@vdf_queue).first))} ;; {get_header(elem(@vdf_queue).first.prev)} ;; {has(%unordered_map<hash_t,unsignedint>, elem(@vdf_queue).first.input)}
each %shared_ptr<vdf_fork_t>.recv_time = elem(@vdf_queue).second ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; !{elem(@vdf_queue).first.start < get_root().vdf_iters} ;; !{(10 * @params.block_interval_ms) < (-elem(@vdf_queue).second + get_time_ms())} ;; !{find_vdf_point(elem(@vdf_queue).first.input, get_output(elem(@vdf_queue).first))} ;; {get_header(elem(@vdf_queue).first.prev)} ;; {has(%unordered_map<hash_t,unsignedint>, elem(@vdf_queue).first.input)}
each %shared_ptr<vdf_fork_t>.proof = elem(@vdf_queue).first ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; !{elem(@vdf_queue).first.start < get_root().vdf_iters} ;; !{(10 * @params.block_interval_ms) < (-elem(@vdf_queue).second + get_time_ms())} ;; !{find_vdf_point(elem(@vdf_queue).first.input, get_output(elem(@vdf_queue).first))} ;; {get_header(elem(@vdf_queue).first.prev)} ;; {has(%unordered_map<hash_t,unsignedint>, elem(@vdf_queue).first.input)}
each push_back(%vector<shared_ptr<vdf_fork_t>>, %shared_ptr<vdf_fork_t>) ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; !{elem(@vdf_queue).first.start < get_root().vdf_iters} ;; !{(10 * @params.block_interval_ms) < (-elem(@vdf_queue).second + get_time_ms())} ;; !{find_vdf_point(elem(@vdf_queue).first.input, get_output(elem(@vdf_queue).first))} ;; {get_header(elem(@vdf_queue).first.prev)} ;; {has(%unordered_map<hash_t,unsignedint>, elem(@vdf_queue).first.input)}
each sort(begin(%vector<shared_ptr<vdf_fork_t>>), end(%vector<shared_ptr<vdf_fork_t>>), by({pair($cb1.height, $cb1.trust) < pair($cb0.height, $cb0.trust)})) ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending}
each push_back(%vector<pair<shared_ptr<ProofOfTime>,long>>, elem(%vector<shared_ptr<vdf_fork_t>>).proof, elem(%vector<shared_ptr<vdf_fork_t>>).recv_time) ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; !{has(@vdf_verify_pending, elem(%vector<shared_ptr<vdf_fork_t>>).proof.hash)} ;; !{size(@vdf_verify_pending) < @max_vdf_verify_pending}
each verify_vdf(elem(%vector<shared_ptr<vdf_fork_t>>).proof, elem(%vector<shared_ptr<vdf_fork_t>>).recv_time) ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; !{has(@vdf_verify_pending, elem(%vector<shared_ptr<vdf_fork_t>>).proof.hash)}
each @vdf_queue = %vector<pair<shared_ptr<ProofOfTime>,long>> ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending}
never break(@fork_index)
never break(@vdf_index)
never break(@vdf_queue)
never break(%vector<shared_ptr<vdf_fork_t>>)
never throw …
exit !{size(@vdf_verify_pending) < @max_vdf_verify_pending} | {did @vdf_queue = %vector<pair<shared_ptr<ProofOfTime>,long>>} | {empty(@vdf_queue)}
exit !{size(@vdf_verify_pending) < @max_vdf_verify_pending} | {did at(%unordered_map<hash_t,unsignedint>, get_root().vdf_output) = get_root().vdf_height} | {empty(@vdf_queue)}
exit !{size(@vdf_verify_pending) < @max_vdf_verify_pending} | {did sort(begin(%vector<shared_ptr<vdf_fork_t>>), end(%vector<shared_ptr<vdf_fork_t>>), by({pair($cb1.height, $cb1.trust) < pair($cb0.height, $cb0.trust)}))} | {empty(@vdf_queue)}
exit !{elem(@fork_index).second.is_all_proof_verified} | !{size(@vdf_verify_pending) < @max_vdf_verify_pending} | {did at(%unordered_map<hash_t,unsignedint>, elem(@fork_index).second.block.vdf_output) = elem(@fork_index).second.block.vdf_height} | {empty(@vdf_queue)}
exit !{find_value(%unordered_map<hash_t,unsignedint>, elem(@vdf_index).second.input)} | !{size(@vdf_verify_pending) < @max_vdf_verify_pending} | {did at(%unordered_map<hash_t,unsignedint>, elem(@vdf_index).second.output) = (find_value(%unordered_map<hash_t,unsignedint>, elem(@vdf_index).second.input) + 1)} | {empty(@vdf_queue)}
at at(%unordered_map<hash_t,unsignedint>, elem(@fork_index).second.block.vdf_output) = elem(@fork_index).second.block.vdf_height ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; {elem(@fork_index).second.is_all_proof_verified}
at at(%unordered_map<hash_t,unsignedint>, get_root().vdf_output) = get_root().vdf_height ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending}
at at(%unordered_map<hash_t,unsignedint>, elem(@vdf_index).second.output) = (find_value(%unordered_map<hash_t,unsignedint>, elem(@vdf_index).second.input) + 1) ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; {find_value(%unordered_map<hash_t,unsignedint>, elem(@vdf_index).second.input)}
at push_back(%vector<pair<shared_ptr<ProofOfTime>,long>>, elem(@vdf_queue)) ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; !{elem(@vdf_queue).first.start < get_root().vdf_iters} ;; !{(10 * @params.block_interval_ms) < (-elem(@vdf_queue).second + get_time_ms())} ;; !{find_vdf_point(elem(@vdf_queue).first.input, get_output(elem(@vdf_queue).first))} ;; !{get_header(elem(@vdf_queue).first.prev)} | !{has(%unordered_map<hash_t,unsignedint>, elem(@vdf_queue).first.input)}
at %shared_ptr<vdf_fork_t>.height = find_value(%unordered_map<hash_t,unsignedint>, elem(@vdf_queue).first.input, 0) ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; !{elem(@vdf_queue).first.start < get_root().vdf_iters} ;; !{(10 * @params.block_interval_ms) < (-elem(@vdf_queue).second + get_time_ms())} ;; !{find_vdf_point(elem(@vdf_queue).first.input, get_output(elem(@vdf_queue).first))} ;; {get_header(elem(@vdf_queue).first.prev)} ;; {has(%unordered_map<hash_t,unsignedint>, elem(@vdf_queue).first.input)}
at %shared_ptr<vdf_fork_t>.trust = find_value(@timelord_trust, elem(@vdf_queue).first.timelord_key, 0) ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; !{elem(@vdf_queue).first.start < get_root().vdf_iters} ;; !{(10 * @params.block_interval_ms) < (-elem(@vdf_queue).second + get_time_ms())} ;; !{find_vdf_point(elem(@vdf_queue).first.input, get_output(elem(@vdf_queue).first))} ;; {get_header(elem(@vdf_queue).first.prev)} ;; {has(%unordered_map<hash_t,unsignedint>, elem(@vdf_queue).first.input)}
at %shared_ptr<vdf_fork_t>.recv_time = elem(@vdf_queue).second ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; !{elem(@vdf_queue).first.start < get_root().vdf_iters} ;; !{(10 * @params.block_interval_ms) < (-elem(@vdf_queue).second + get_time_ms())} ;; !{find_vdf_point(elem(@vdf_queue).first.input, get_output(elem(@vdf_queue).first))} ;; {get_header(elem(@vdf_queue).first.prev)} ;; {has(%unordered_map<hash_t,unsignedint>, elem(@vdf_queue).first.input)}
at %shared_ptr<vdf_fork_t>.proof = elem(@vdf_queue).first ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; !{elem(@vdf_queue).first.start < get_root().vdf_iters} ;; !{(10 * @params.block_interval_ms) < (-elem(@vdf_queue).second + get_time_ms())} ;; !{find_vdf_point(elem(@vdf_queue).first.input, get_output(elem(@vdf_queue).first))} ;; {get_header(elem(@vdf_queue).first.prev)} ;; {has(%unordered_map<hash_t,unsignedint>, elem(@vdf_queue).first.input)}
at push_back(%vector<shared_ptr<vdf_fork_t>>, %shared_ptr<vdf_fork_t>) ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; !{elem(@vdf_queue).first.start < get_root().vdf_iters} ;; !{(10 * @params.block_interval_ms) < (-elem(@vdf_queue).second + get_time_ms())} ;; !{find_vdf_point(elem(@vdf_queue).first.input, get_output(elem(@vdf_queue).first))} ;; {get_header(elem(@vdf_queue).first.prev)} ;; {has(%unordered_map<hash_t,unsignedint>, elem(@vdf_queue).first.input)}
at sort(begin(%vector<shared_ptr<vdf_fork_t>>), end(%vector<shared_ptr<vdf_fork_t>>), by({pair($cb1.height, $cb1.trust) < pair($cb0.height, $cb0.trust)})) ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending}
at push_back(%vector<pair<shared_ptr<ProofOfTime>,long>>, elem(%vector<shared_ptr<vdf_fork_t>>).proof, elem(%vector<shared_ptr<vdf_fork_t>>).recv_time) ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; !{has(@vdf_verify_pending, elem(%vector<shared_ptr<vdf_fork_t>>).proof.hash)} ;; !{size(@vdf_verify_pending) < @max_vdf_verify_pending}
at verify_vdf(elem(%vector<shared_ptr<vdf_fork_t>>).proof, elem(%vector<shared_ptr<vdf_fork_t>>).recv_time) ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending} ;; !{has(@vdf_verify_pending, elem(%vector<shared_ptr<vdf_fork_t>>).proof.hash)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending}
at @vdf_queue = %vector<pair<shared_ptr<ProofOfTime>,long>> ;; !{empty(@vdf_queue)} ;; {size(@vdf_verify_pending) < @max_vdf_verify_pending}
fn mmx::Node::verify_proofs
each push_back(%vector<pair<shared_ptr<ProofResponse>,long>>, elem(@proof_queue)) ;; !{(10 * @params.block_interval_ms) < (-elem(@proof_queue).second + get_time_ms())} ;; !{elem(@proof_queue).first.vdf_height < (@params.challenge_delay + get_vdf_height())}
each add_task(@threads, lambda) ;; !{(10 * @params.block_interval_ms) < (-elem(@proof_queue).second + get_time_ms())} ;; {elem(@proof_queue).first.vdf_height < (@params.challenge_delay + get_vdf_height())}
each verify(elem(@proof_queue).first) ;; !{(10 * @params.block_interval_ms) < (-elem(@proof_queue).second + get_time_ms())} ;; {elem(@proof_queue).first.vdf_height < (@params.challenge_delay + get_vdf_height())}
each add_proof(elem(@proof_queue).first.proof, elem(@proof_queue).first.vdf_height, elem(@proof_queue).first.farmer_addr) ;; !{(10 * @params.block_interval_ms) < (-elem(@proof_queue).second + get_time_ms())} ;; {elem(@proof_queue).first.vdf_height < (@params.challenge_delay + get_vdf_height())}
each sync(@threads)
each @proof_queue = %vector<pair<shared_ptr<ProofResponse>,long>>
never break(@proof_queue)
never throw …
exit {did @proof_queue = %vector<pair<shared_ptr<ProofResponse>,long>>}
exit {did sync(@threads)}
exit !{elem(@proof_queue).first.vdf_height < (@params.challenge_delay + get_vdf_height())} | {(10 * @params.block_interval_ms) < (-elem(@proof_queue).second + get_time_ms())} | {did add_task(@threads, lambda)}
exit {(10 * @params.block_interval_ms) < (-elem(@proof_queue).second + get_time_ms())} | {did push_back(%vector<pair<shared_ptr<ProofResponse>,long>>, elem(@proof_queue))} | {elem(@proof_queue).first.vdf_height < (@params.challenge_delay + get_vdf_height())}
at push_back(%vector<pair<shared_ptr<ProofResponse>,long>>, elem(@proof_queue)) ;; !{(10 * @params.block_interval_ms) < (-elem(@proof_queue).second + get_time_ms())} ;; !{elem(@proof_queue).first.vdf_height < (@params.challenge_delay + get_vdf_height())}
at add_task(@threads, lambda) ;; !{(10 * @params.block_interval_ms) < (-elem(@proof_queue).second + get_time_ms())} ;; {elem(@proof_queue).first.vdf_height < (@params.challenge_delay + get_vdf_height())}
at verify(elem(@proof_queue).first) ;; !{(10 * @params.block_interval_ms) < (-elem(@proof_queue).second + get_time_ms())} ;; {elem(@proof_queue).first.vdf_height < (@params.challenge_delay + get_vdf_height())}
at lock_guard(%mutex) ;; !{(10 * @params.block_interval_ms) < (-elem(@proof_queue).second + get_time_ms())} ;; {elem(@proof_queue).first.vdf_height < (@params.challenge_delay + get_vdf_height())}
at add_proof(elem(@proof_queue).first.proof, elem(@proof_queue).first.vdf_height, elem(@proof_queue).first.farmer_addr) ;; !{(10 * @params.block_interval_ms) < (-elem(@proof_queue).second + get_time_ms())} ;; {elem(@proof_queue).first.vdf_height < (@params.challenge_delay + get_vdf_height())}
at sync(@threads)
at @proof_queue = %vector<pair<shared_ptr<ProofResponse>,long>>
at add_proof(elem(@proof_queue).first.proof, elem(@proof_queue).first.vdf_height, elem(@proof_queue).first.farmer_addr) ;; !{(10 * @params.block_interval_ms) < (-elem(@proof_queue).second + get_time_ms())} ;; {did add_task(@threads, lambda)} ;; {did verify(elem(@proof_queue).first)} ;; {elem(@proof_queue).first.vdf_height < (@params.challenge_delay + get_vdf_height())}
at add_proof(…) ;; {did lock_guard(%mutex)}
fn mmx::Node::verify_block_proofs
never break(@fork_index)
each elem(@fork_index).second.is_connected = {find_prev(elem(@fork_index).second.block, (@params.commit_delay + @params.infuse_delay), true)} ;; {(get_root().height + 1) == elem(@fork_index).second.block.height} ;; !{elem(@fork_index).second.is_connected}
each elem(@fork_index).second.prev = find_fork(elem(@fork_index).second.block.prev) ;; !{(get_root().height + 1) == elem(@fork_index).second.block.height} ;; !{lock(elem(@fork_index).second.prev)}
each elem(@fork_index).second.is_invalid = true ;; !{(get_root().height + 1) == elem(@fork_index).second.block.height} ;; {lock(elem(@fork_index).second.prev)} ;; {lock(elem(@fork_index).second.prev).is_invalid}
each elem(@fork_index).second.is_connected = lock(elem(@fork_index).second.prev).is_connected ;; !{(get_root().height + 1) == elem(@fork_index).second.block.height} ;; {lock(elem(@fork_index).second.prev)}
each elem(@fork_index).second.is_connected = false ;; !{(get_root().height + 1) == elem(@fork_index).second.block.height} ;; !{lock(elem(@fork_index).second.prev)}
each elem(@fork_index).second.vdf_points = find_vdf_points(elem(@fork_index).second.block) ;; {elem(@fork_index).second.is_connected} ;; !{elem(@fork_index).second.is_invalid} ;; !{elem(@fork_index).second.is_proof_verified} ;; !{elem(@fork_index).second.is_vdf_verified} ;; !{empty(find_vdf_points(elem(@fork_index).second.block))}
each elem(@fork_index).second.is_vdf_verified = true ;; {elem(@fork_index).second.is_connected} ;; !{elem(@fork_index).second.is_invalid} ;; !{elem(@fork_index).second.is_proof_verified} ;; !{elem(@fork_index).second.is_vdf_verified} ;; !{empty(find_vdf_points(elem(@fork_index).second.block))}
each elem(@fork_index).second.is_vdf_verified = true ;; {elem(@fork_index).second.is_connected} ;; !{elem(@fork_index).second.is_invalid} ;; !{elem(@fork_index).second.is_proof_verified} ;; !{elem(@fork_index).second.is_vdf_verified} ;; {empty(find_vdf_points(elem(@fork_index).second.block))} ;; !{@is_synced}
each add_task(@threads, lambda) ;; {elem(@fork_index).second.is_connected} ;; !{elem(@fork_index).second.is_invalid} ;; !{elem(@fork_index).second.is_proof_verified} ;; {elem(@fork_index).second.is_vdf_verified}
each verify_proof(elem(@fork_index).second.block) ;; {elem(@fork_index).second.is_connected} ;; !{elem(@fork_index).second.is_invalid} ;; !{elem(@fork_index).second.is_proof_verified} ;; {elem(@fork_index).second.is_vdf_verified}
each elem(@fork_index).second.is_proof_verified = true ;; {elem(@fork_index).second.is_connected} ;; !{elem(@fork_index).second.is_invalid} ;; !{elem(@fork_index).second.is_proof_verified} ;; {elem(@fork_index).second.is_vdf_verified}
each add_proof(at(elem(@fork_index).second.block.proof, 0), elem(@fork_index).second.block.vdf_height, 0) ;; {elem(@fork_index).second.is_connected} ;; !{elem(@fork_index).second.is_invalid} ;; !{elem(@fork_index).second.is_proof_verified} ;; {elem(@fork_index).second.is_vdf_verified} ;; {at(elem(@fork_index).second.block.proof, 0)}
each at(elem(@fork_index).second.validators, elem(get_validators(elem(@fork_index).second.block))) = false ;; {elem(@fork_index).second.is_connected} ;; !{elem(@fork_index).second.is_invalid} ;; !{elem(@fork_index).second.is_proof_verified} ;; {elem(@fork_index).second.is_vdf_verified}
each elem(@fork_index).second.is_invalid = true ;; {elem(@fork_index).second.is_connected} ;; !{elem(@fork_index).second.is_invalid} ;; !{elem(@fork_index).second.is_proof_verified} ;; {elem(@fork_index).second.is_vdf_verified}
each sync(@threads)
never break(get_validators(elem(@fork_index).second.block))
never throw …
exit {did sync(@threads)}
exit !{(get_root().height + 1) == elem(@fork_index).second.block.height} | {did elem(@fork_index).second.is_connected = {find_prev(elem(@fork_index).second.block, (@params.commit_delay + @params.infuse_delay), true)}} | {elem(@fork_index).second.is_connected}
exit !{lock(elem(@fork_index).second.prev)} | {(get_root().height + 1) == elem(@fork_index).second.block.height} | {did elem(@fork_index).second.is_connected = lock(elem(@fork_index).second.prev).is_connected}
exit {(get_root().height + 1) == elem(@fork_index).second.block.height} | {did elem(@fork_index).second.is_connected = false} | {lock(elem(@fork_index).second.prev)}
exit {(get_root().height + 1) == elem(@fork_index).second.block.height} | {did elem(@fork_index).second.prev = find_fork(elem(@fork_index).second.block.prev)} | {lock(elem(@fork_index).second.prev)}
exit !{lock(elem(@fork_index).second.prev).is_invalid} | !{lock(elem(@fork_index).second.prev)} | {(get_root().height + 1) == elem(@fork_index).second.block.height} | {did elem(@fork_index).second.is_invalid = true}
exit !{elem(@fork_index).second.is_connected} | !{elem(@fork_index).second.is_vdf_verified} | {did add_task(@threads, lambda)} | {elem(@fork_index).second.is_invalid} | {elem(@fork_index).second.is_proof_verified}
at elem(@fork_index).second.is_connected = {find_prev(elem(@fork_index).second.block, (@params.commit_delay + @params.infuse_delay), true)} ;; {(get_root().height + 1) == elem(@fork_index).second.block.height} ;; !{elem(@fork_index).second.is_connected}
at elem(@fork_index).second.prev = find_fork(elem(@fork_index).second.block.prev) ;; !{(get_root().height + 1) == elem(@fork_index).second.block.height} ;; !{lock(elem(@fork_index).second.prev)}
at elem(@fork_index).second.is_invalid = true
at elem(@fork_index).second.is_connected = lock(elem(@fork_index).second.prev).is_connected ;; !{(get_root().height + 1) == elem(@fork_index).second.block.height} ;; {lock(elem(@fork_index).second.prev)}
at elem(@fork_index).second.is_connected = false ;; !{(get_root().height + 1) == elem(@fork_index).second.block.height} ;; !{lock(elem(@fork_index).second.prev)}
at elem(@fork_index).second.vdf_points = find_vdf_points(elem(@fork_index).second.block) ;; {elem(@fork_index).second.is_connected} ;; !{elem(@fork_index).second.is_invalid} ;; !{elem(@fork_index).second.is_proof_verified} ;; !{elem(@fork_index).second.is_vdf_verified} ;; !{empty(find_vdf_points(elem(@fork_index).second.block))}
at elem(@fork_index).second.is_vdf_verified = true ;; {elem(@fork_index).second.is_connected} ;; !{elem(@fork_index).second.is_invalid} ;; !{elem(@fork_index).second.is_proof_verified} ;; !{elem(@fork_index).second.is_vdf_verified}
at add_task(@threads, lambda) ;; {elem(@fork_index).second.is_connected} ;; !{elem(@fork_index).second.is_invalid} ;; !{elem(@fork_index).second.is_proof_verified} ;; {elem(@fork_index).second.is_vdf_verified}
at verify_proof(elem(@fork_index).second.block) ;; {elem(@fork_index).second.is_connected} ;; !{elem(@fork_index).second.is_invalid} ;; !{elem(@fork_index).second.is_proof_verified} ;; {elem(@fork_index).second.is_vdf_verified}
at elem(@fork_index).second.is_proof_verified = true ;; {elem(@fork_index).second.is_connected} ;; !{elem(@fork_index).second.is_invalid} ;; !{elem(@fork_index).second.is_proof_verified} ;; {elem(@fork_index).second.is_vdf_verified}
at lock_guard(%mutex) ;; {elem(@fork_index).second.is_connected} ;; !{elem(@fork_index).second.is_invalid} ;; !{elem(@fork_index).second.is_proof_verified} ;; {elem(@fork_index).second.is_vdf_verified} ;; {at(elem(@fork_index).second.block.proof, 0)}
at add_proof(at(elem(@fork_index).second.block.proof, 0), elem(@fork_index).second.block.vdf_height, 0) ;; {elem(@fork_index).second.is_connected} ;; !{elem(@fork_index).second.is_invalid} ;; !{elem(@fork_index).second.is_proof_verified} ;; {elem(@fork_index).second.is_vdf_verified} ;; {at(elem(@fork_index).second.block.proof, 0)}
at at(elem(@fork_index).second.validators, elem(get_validators(elem(@fork_index).second.block))) = false ;; {elem(@fork_index).second.is_connected} ;; !{elem(@fork_index).second.is_invalid} ;; !{elem(@fork_index).second.is_proof_verified} ;; {elem(@fork_index).second.is_vdf_verified}
at sync(@threads)
at add_proof(at(elem(@fork_index).second.block.proof, 0), elem(@fork_index).second.block.vdf_height, 0) ;; !{elem(@fork_index).second.is_invalid} ;; !{elem(@fork_index).second.is_proof_verified} ;; {at(elem(@fork_index).second.block.proof, 0)} ;; {did add_task(@threads, lambda)} ;; {did verify_proof(elem(@fork_index).second.block)} ;; {elem(@fork_index).second.is_connected} ;; {elem(@fork_index).second.is_vdf_verified}
at elem(@fork_index).second.is_proof_verified = true ;; !{elem(@fork_index).second.is_invalid} ;; !{elem(@fork_index).second.is_proof_verified} ;; {did add_task(@threads, lambda)} ;; {did verify_proof(elem(@fork_index).second.block)} ;; {elem(@fork_index).second.is_connected} ;; {elem(@fork_index).second.is_vdf_verified}
at add_proof(…) ;; {did lock_guard(%mutex)}
fn mmx::Node::handle sig=ProofOfTime
each push_back(@vdf_queue, $0, get_time_ms())
each trigger_update()
never throw …
exit {did push_back(@vdf_queue, $0, get_time_ms())}
exit {did trigger_update()}
at push_back(@vdf_queue, $0, get_time_ms())
at trigger_update()
fn mmx::Node::handle sig=VDF_Point
each insert(@vdf_index, ($0.num_iters + $0.start), $0) ;; !{find_vdf_point($0.input, $0.output)}
each insert(@vdf_tree, $0.output, $0) ;; !{find_vdf_point($0.input, $0.output)}
each trigger_update() ;; !{find_vdf_point($0.input, $0.output)}
never throw …
exit {did insert(@vdf_index, ($0.num_iters + $0.start), $0)} | {find_vdf_point($0.input, $0.output)}
exit {did insert(@vdf_tree, $0.output, $0)} | {find_vdf_point($0.input, $0.output)}
exit {did trigger_update()} | {find_vdf_point($0.input, $0.output)}
at insert(@vdf_index, ($0.num_iters + $0.start), $0) ;; !{find_vdf_point($0.input, $0.output)}
at insert(@vdf_tree, $0.output, $0) ;; !{find_vdf_point($0.input, $0.output)}
at trigger_update() ;; !{find_vdf_point($0.input, $0.output)}
fn mmx::Node::handle sig=ProofResponse
each push_back(@proof_queue, $0, get_time_ms())
never throw …
exit {did push_back(@proof_queue, $0, get_time_ms())}
at push_back(@proof_queue, $0, get_time_ms())
