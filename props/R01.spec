tus src/Router.cpp
fn mmx::Router::broadcast
each push_back(%vector<shared_ptr<Router::peer_t>>, elem(@peer_map).second) ;; !{$4} | {elem(@peer_map).second.is_synced} ;; {empty($2)} | {has($2, elem(@peer_map).second.info.type)}
each send_to(%vector<shared_ptr<Router::peer_t>>, $0, $1, $3)
never break(@peer_map)
never throw …
exit {did send_to(%vector<shared_ptr<Router::peer_t>>, $0, $1, $3)}
exit !{elem(@peer_map).second.is_synced} | !{empty($2)} | {did push_back(%vector<shared_ptr<Router::peer_t>>, elem(@peer_map).second)}
exit !{elem(@peer_map).second.is_synced} | !{has($2, elem(@peer_map).second.info.type)} | {did push_back(%vector<shared_ptr<Router::peer_t>>, elem(@peer_map).second)}
exit !{empty($2)} | {$4} | {did push_back(%vector<shared_ptr<Router::peer_t>>, elem(@peer_map).second)}
exit !{has($2, elem(@peer_map).second.info.type)} | {$4} | {did push_back(%vector<shared_ptr<Router::peer_t>>, elem(@peer_map).second)}
at push_back(%vector<shared_ptr<Router::peer_t>>, elem(@peer_map).second) ;; !{$4} | {elem(@peer_map).second.is_synced} ;; {empty($2)} | {has($2, elem(@peer_map).second.info.type)}
at send_to(%vector<shared_ptr<Router::peer_t>>, $0, $1, $3)
fn mmx::Router::handle sig=(std::shared_ptr<const~mmx::Block>)
each relay_msg_hash($0.content_hash)
each broadcast($0, $0.content_hash, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), !{has(@hash_info, $0.content_hash)}, false) ;; {relay_msg_hash($0.content_hash)}
each @block_counter = (@block_counter + 1) ;; {relay_msg_hash($0.content_hash)}
each erase(@vdf_history, begin(@vdf_history), upper_bound(@vdf_history, @verified_vdf_height))
each erase(@farmer_credit, begin(@farmer_credit), upper_bound(@farmer_credit, @verified_vdf_height))
each @verified_vdf_height = $0.vdf_height
each @verified_peak_height = $0.height
never throw …
exit {did @verified_peak_height = $0.height}
exit {did @verified_vdf_height = $0.vdf_height}
exit {did erase(@farmer_credit, begin(@farmer_credit), upper_bound(@farmer_credit, @verified_vdf_height))}
exit {did erase(@vdf_history, begin(@vdf_history), upper_bound(@vdf_history, @verified_vdf_height))}
exit {did relay_msg_hash($0.content_hash)}
exit !{relay_msg_hash($0.content_hash)} | {did @block_counter = (@block_counter + 1)}
exit !{relay_msg_hash($0.content_hash)} | {did broadcast($0, $0.content_hash, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), !{has(@hash_info, $0.content_hash)}, false)}
at relay_msg_hash($0.content_hash)
at broadcast($0, $0.content_hash, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), !{has(@hash_info, $0.content_hash)}, false) ;; {relay_msg_hash($0.content_hash)}
at @block_counter = (@block_counter + 1) ;; {relay_msg_hash($0.content_hash)}
at erase(@vdf_history, begin(@vdf_history), upper_bound(@vdf_history, @verified_vdf_height))
at erase(@farmer_credit, begin(@farmer_credit), upper_bound(@farmer_credit, @verified_vdf_height))
at @verified_vdf_height = $0.vdf_height
at @verified_peak_height = $0.height
fn mmx::Router::handle sig=(std::shared_ptr<const~mmx::Transaction>)
each relay_msg_hash($0.content_hash)
each broadcast($0, $0.content_hash, ctor(set<node_type_e>, node_type_e::FULL_NODE, ctor(less<node_type_e>)), true, true) ;; {relay_msg_hash($0.content_hash)} ;; !{@input_transactions} | {@vnx_sample.topic} ;; !{@vnx_sample.topic} | {@input_transactions}
each relay($0, $0.content_hash, ctor(set<node_type_e>, node_type_e::FULL_NODE, ctor(less<node_type_e>))) ;; {relay_msg_hash($0.content_hash)} ;; !{@input_transactions} | !{@vnx_sample.topic} ;; {@input_transactions} | {@vnx_sample.topic}
each @tx_counter = (@tx_counter + 1) ;; {relay_msg_hash($0.content_hash)}
never throw …
exit {did relay_msg_hash($0.content_hash)}
exit !{relay_msg_hash($0.content_hash)} | {did @tx_counter = (@tx_counter + 1)}
exit !{@input_transactions} | !{@vnx_sample.topic} | !{relay_msg_hash($0.content_hash)} | {did broadcast($0, $0.content_hash, ctor(set<node_type_e>, node_type_e::FULL_NODE, ctor(less<node_type_e>)), true, true)}
exit !{@input_transactions} | !{relay_msg_hash($0.content_hash)} | {@vnx_sample.topic} | {did relay($0, $0.content_hash, ctor(set<node_type_e>, node_type_e::FULL_NODE, ctor(less<node_type_e>)))}
exit !{@vnx_sample.topic} | !{relay_msg_hash($0.content_hash)} | {@input_transactions} | {did relay($0, $0.content_hash, ctor(set<node_type_e>, node_type_e::FULL_NODE, ctor(less<node_type_e>)))}
exit !{relay_msg_hash($0.content_hash)} | {@input_transactions} | {@vnx_sample.topic} | {did broadcast($0, $0.content_hash, ctor(set<node_type_e>, node_type_e::FULL_NODE, ctor(less<node_type_e>)), true, true)}
at relay_msg_hash($0.content_hash)
at broadcast($0, $0.content_hash, ctor(set<node_type_e>, node_type_e::FULL_NODE, ctor(less<node_type_e>)), true, true) ;; {relay_msg_hash($0.content_hash)} ;; !{@input_transactions} | {@vnx_sample.topic} ;; !{@vnx_sample.topic} | {@input_transactions}
at relay($0, $0.content_hash, ctor(set<node_type_e>, node_type_e::FULL_NODE, ctor(less<node_type_e>))) ;; {relay_msg_hash($0.content_hash)} ;; !{@input_transactions} | !{@vnx_sample.topic} ;; {@input_transactions} | {@vnx_sample.topic}
at @tx_counter = (@tx_counter + 1) ;; {relay_msg_hash($0.content_hash)}
fn mmx::Router::handle sig=(std::shared_ptr<const~mmx::ProofOfTime>)
each insert(@our_timelords, $0.timelord_key) ;; {@vnx_sample} ;; !{@input_vdfs} | {@vnx_sample.topic} ;; !{@vnx_sample.topic} | {@input_vdfs}
each relay_msg_hash($0.content_hash)
each broadcast($0, $0.content_hash, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), count(@our_timelords, $0.timelord_key), false) ;; {relay_msg_hash($0.content_hash)}
each insert(@vdf_history, $0.vdf_height, $0) ;; {relay_msg_hash($0.content_hash)}
each @vdf_counter = (@vdf_counter + 1) ;; {relay_msg_hash($0.content_hash)}
each at(@timelord_credit, $0.timelord_key) = 1
each @verified_vdf_height = max($0.vdf_height, @verified_vdf_height)
never throw …
exit !{@verified_vdf_height < $0.vdf_height} | {did @verified_vdf_height = max($0.vdf_height, @verified_vdf_height)}
exit !{@verified_vdf_height < $0.vdf_height} | {did at(@timelord_credit, $0.timelord_key) = 1}
exit !{@verified_vdf_height < $0.vdf_height} | {did relay_msg_hash($0.content_hash)}
exit {@vnx_sample} | {did @verified_vdf_height = max($0.vdf_height, @verified_vdf_height)}
exit {@vnx_sample} | {did at(@timelord_credit, $0.timelord_key) = 1}
exit {@vnx_sample} | {did relay_msg_hash($0.content_hash)}
exit !{@input_vdfs} | {@vnx_sample.topic} | {did @verified_vdf_height = max($0.vdf_height, @verified_vdf_height)}
exit !{@input_vdfs} | {@vnx_sample.topic} | {did at(@timelord_credit, $0.timelord_key) = 1}
exit !{@input_vdfs} | {@vnx_sample.topic} | {did relay_msg_hash($0.content_hash)}
exit !{@verified_vdf_height < $0.vdf_height} | !{relay_msg_hash($0.content_hash)} | {did @vdf_counter = (@vdf_counter + 1)}
exit !{@verified_vdf_height < $0.vdf_height} | !{relay_msg_hash($0.content_hash)} | {did broadcast($0, $0.content_hash, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), count(@our_timelords, $0.timelord_key), false)}
exit !{@verified_vdf_height < $0.vdf_height} | !{relay_msg_hash($0.content_hash)} | {did insert(@vdf_history, $0.vdf_height, $0)}
exit !{@vnx_sample.topic} | {@input_vdfs} | {did @verified_vdf_height = max($0.vdf_height, @verified_vdf_height)}
exit !{@vnx_sample.topic} | {@input_vdfs} | {did at(@timelord_credit, $0.timelord_key) = 1}
exit !{@vnx_sample.topic} | {@input_vdfs} | {did relay_msg_hash($0.content_hash)}
exit !{relay_msg_hash($0.content_hash)} | {@vnx_sample} | {did @vdf_counter = (@vdf_counter + 1)}
exit !{relay_msg_hash($0.content_hash)} | {@vnx_sample} | {did broadcast($0, $0.content_hash, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), count(@our_timelords, $0.timelord_key), false)}
exit !{relay_msg_hash($0.content_hash)} | {@vnx_sample} | {did insert(@vdf_history, $0.vdf_height, $0)}
exit !{@input_vdfs} | !{relay_msg_hash($0.content_hash)} | {@vnx_sample.topic} | {did @vdf_counter = (@vdf_counter + 1)}
exit !{@input_vdfs} | !{relay_msg_hash($0.content_hash)} | {@vnx_sample.topic} | {did broadcast($0, $0.content_hash, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), count(@our_timelords, $0.timelord_key), false)}
exit !{@input_vdfs} | !{relay_msg_hash($0.content_hash)} | {@vnx_sample.topic} | {did insert(@vdf_history, $0.vdf_height, $0)}
exit !{@vnx_sample.topic} | !{relay_msg_hash($0.content_hash)} | {@input_vdfs} | {did @vdf_counter = (@vdf_counter + 1)}
exit !{@vnx_sample.topic} | !{relay_msg_hash($0.content_hash)} | {@input_vdfs} | {did broadcast($0, $0.content_hash, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), count(@our_timelords, $0.timelord_key), false)}
exit !{@vnx_sample.topic} | !{relay_msg_hash($0.content_hash)} | {@input_vdfs} | {did insert(@vdf_history, $0.vdf_height, $0)}
exit !{@input_vdfs} | !{@verified_vdf_height < $0.vdf_height} | !{@vnx_sample.topic} | !{@vnx_sample} | {did insert(@our_timelords, $0.timelord_key)}
exit !{@input_vdfs} | !{@vnx_sample.topic} | !{@vnx_sample} | {@verified_vdf_height < $0.vdf_height} | {did insert(@our_timelords, $0.timelord_key)}
exit !{@verified_vdf_height < $0.vdf_height} | !{@vnx_sample} | {@input_vdfs} | {@vnx_sample.topic} | {did insert(@our_timelords, $0.timelord_key)}
exit !{@vnx_sample} | {@input_vdfs} | {@verified_vdf_height < $0.vdf_height} | {@vnx_sample.topic} | {did insert(@our_timelords, $0.timelord_key)}
at insert(@our_timelords, $0.timelord_key) ;; {@vnx_sample} ;; !{@input_vdfs} | {@vnx_sample.topic} ;; !{@vnx_sample.topic} | {@input_vdfs}
at relay_msg_hash($0.content_hash) ;; !{@input_vdfs} | !{@vnx_sample.topic} | !{@vnx_sample} | {@verified_vdf_height < $0.vdf_height} ;; !{@vnx_sample} | {@input_vdfs} | {@verified_vdf_height < $0.vdf_height} | {@vnx_sample.topic}
at broadcast($0, $0.content_hash, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), count(@our_timelords, $0.timelord_key), false) ;; {relay_msg_hash($0.content_hash)} ;; !{@input_vdfs} | !{@vnx_sample.topic} | !{@vnx_sample} | {@verified_vdf_height < $0.vdf_height} ;; !{@vnx_sample} | {@input_vdfs} | {@verified_vdf_height < $0.vdf_height} | {@vnx_sample.topic}
at insert(@vdf_history, $0.vdf_height, $0) ;; {relay_msg_hash($0.content_hash)} ;; !{@input_vdfs} | !{@vnx_sample.topic} | !{@vnx_sample} | {@verified_vdf_height < $0.vdf_height} ;; !{@vnx_sample} | {@input_vdfs} | {@verified_vdf_height < $0.vdf_height} | {@vnx_sample.topic}
at @vdf_counter = (@vdf_counter + 1) ;; {relay_msg_hash($0.content_hash)} ;; !{@input_vdfs} | !{@vnx_sample.topic} | !{@vnx_sample} | {@verified_vdf_height < $0.vdf_height} ;; !{@vnx_sample} | {@input_vdfs} | {@verified_vdf_height < $0.vdf_height} | {@vnx_sample.topic}
at at(@timelord_credit, $0.timelord_key) = 1 ;; !{@input_vdfs} | !{@vnx_sample.topic} | !{@vnx_sample} | {@verified_vdf_height < $0.vdf_height} ;; !{@vnx_sample} | {@input_vdfs} | {@verified_vdf_height < $0.vdf_height} | {@vnx_sample.topic}
at @verified_vdf_height = max($0.vdf_height, @verified_vdf_height) ;; !{@input_vdfs} | !{@vnx_sample.topic} | !{@vnx_sample} | {@verified_vdf_height < $0.vdf_height} ;; !{@vnx_sample} | {@input_vdfs} | {@verified_vdf_height < $0.vdf_height} | {@vnx_sample.topic}
fn mmx::Router::handle sig=(std::shared_ptr<const~mmx::VDF_Point>)
each clone($0).proof = 0 ;; {$0.proof}
each relay_msg_hash(ite({$0.proof}, clone($0), $0).content_hash)
each broadcast(ite({$0.proof}, clone($0), $0), ite({$0.proof}, clone($0), $0).content_hash, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), true, false) ;; {relay_msg_hash(ite({$0.proof}, clone($0), $0).content_hash)}
never throw …
exit {did relay_msg_hash(ite({$0.proof}, clone($0), $0).content_hash)}
exit !{$0.proof} | {did clone($0).proof = 0}
exit !{relay_msg_hash(ite({$0.proof}, clone($0), $0).content_hash)} | {did broadcast(ite({$0.proof}, clone($0), $0), ite({$0.proof}, clone($0), $0).content_hash, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), true, false)}
at clone($0).proof = 0 ;; {$0.proof}
at relay_msg_hash(ite({$0.proof}, clone($0), $0).content_hash)
at broadcast(ite({$0.proof}, clone($0), $0), ite({$0.proof}, clone($0), $0).content_hash, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), true, false) ;; {relay_msg_hash(ite({$0.proof}, clone($0), $0).content_hash)}
fn mmx::Router::handle sig=(std::shared_ptr<const~mmx::ProofResponse>)
each relay_msg_hash($0.content_hash) ;; {$0.proof}
each clear(clone($0).harvester) ;; {$0.proof} ;; {relay_msg_hash($0.content_hash)}
each clone($0).farmer_addr = 0 ;; {$0.proof} ;; {relay_msg_hash($0.content_hash)}
each broadcast(clone($0), $0.content_hash, ctor(set<node_type_e>, node_type_e::FULL_NODE, ctor(less<node_type_e>)), {get_pipe($0.farmer_addr)}, false) ;; {$0.proof} ;; {relay_msg_hash($0.content_hash)}
each insert(at(@farmer_credit, $0.vdf_height), $0.proof.farmer_key) ;; {$0.proof} ;; {relay_msg_hash($0.content_hash)}
each @proof_counter = (@proof_counter + 1) ;; {$0.proof} ;; {relay_msg_hash($0.content_hash)}
never throw …
exit !{$0.proof} | {did relay_msg_hash($0.content_hash)}
exit !{$0.proof} | !{relay_msg_hash($0.content_hash)} | {did @proof_counter = (@proof_counter + 1)}
exit !{$0.proof} | !{relay_msg_hash($0.content_hash)} | {did broadcast(clone($0), $0.content_hash, ctor(set<node_type_e>, node_type_e::FULL_NODE, ctor(less<node_type_e>)), {get_pipe($0.farmer_addr)}, false)}
exit !{$0.proof} | !{relay_msg_hash($0.content_hash)} | {did clear(clone($0).harvester)}
exit !{$0.proof} | !{relay_msg_hash($0.content_hash)} | {did clone($0).farmer_addr = 0}
exit !{$0.proof} | !{relay_msg_hash($0.content_hash)} | {did insert(at(@farmer_credit, $0.vdf_height), $0.proof.farmer_key)}
at relay_msg_hash($0.content_hash) ;; {$0.proof}
at clear(clone($0).harvester) ;; {$0.proof} ;; {relay_msg_hash($0.content_hash)}
at clone($0).farmer_addr = 0 ;; {$0.proof} ;; {relay_msg_hash($0.content_hash)}
at broadcast(clone($0), $0.content_hash, ctor(set<node_type_e>, node_type_e::FULL_NODE, ctor(less<node_type_e>)), {get_pipe($0.farmer_addr)}, false) ;; {$0.proof} ;; {relay_msg_hash($0.content_hash)}
at insert(at(@farmer_credit, $0.vdf_height), $0.proof.farmer_key) ;; {$0.proof} ;; {relay_msg_hash($0.content_hash)}
at @proof_counter = (@proof_counter + 1) ;; {$0.proof} ;; {relay_msg_hash($0.content_hash)}
fn mmx::Router::handle sig=(std::shared_ptr<const~mmx::ValidatorVote>)
each relay_msg_hash($0.content_hash)
each broadcast($0, $0.content_hash, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), false, false) ;; {relay_msg_hash($0.content_hash)}
each @vote_counter = (@vote_counter + 1) ;; {relay_msg_hash($0.content_hash)}
never throw …
exit {did relay_msg_hash($0.content_hash)}
exit !{relay_msg_hash($0.content_hash)} | {did @vote_counter = (@vote_counter + 1)}
exit !{relay_msg_hash($0.content_hash)} | {did broadcast($0, $0.content_hash, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), false, false)}
at relay_msg_hash($0.content_hash)
at broadcast($0, $0.content_hash, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), false, false) ;; {relay_msg_hash($0.content_hash)}
at @vote_counter = (@vote_counter + 1) ;; {relay_msg_hash($0.content_hash)}
fn mmx::Router::on_block
each disconnect($0) ;; !{($1.height + @params.commit_delay) < @verified_peak_height} ;; !{is_valid($1, @params)}
each receive_msg_hash($1.content_hash, $0) ;; !{($1.height + @params.commit_delay) < @verified_peak_height} ;; {is_valid($1, @params)}
each validate($1) ;; !{($1.height + @params.commit_delay) < @verified_peak_height} ;; {is_valid($1, @params)} ;; {receive_msg_hash($1.content_hash, $0)}
each disconnect($0) ;; !{($1.height + @params.commit_delay) < @verified_peak_height} ;; {is_valid($1, @params)} ;; {receive_msg_hash($1.content_hash, $0)}
each erase(at(@farmer_credit, $1.vdf_height), at($1.proof, 0).farmer_key) ;; !{($1.height + @params.commit_delay) < @verified_peak_height} ;; {is_valid($1, @params)} ;; {receive_msg_hash($1.content_hash, $0)} ;; {has(@farmer_credit, $1.vdf_height)}
each relay_msg_hash($1.content_hash) ;; !{($1.height + @params.commit_delay) < @verified_peak_height} ;; {is_valid($1, @params)} ;; {receive_msg_hash($1.content_hash, $0)} ;; {has(@farmer_credit, $1.vdf_height)} ;; {erase(at(@farmer_credit, $1.vdf_height), at($1.proof, 0).farmer_key)}
each relay($1, $1.content_hash, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>))) ;; !{($1.height + @params.commit_delay) < @verified_peak_height} ;; {is_valid($1, @params)} ;; {receive_msg_hash($1.content_hash, $0)} ;; {has(@farmer_credit, $1.vdf_height)} ;; {erase(at(@farmer_credit, $1.vdf_height), at($1.proof, 0).farmer_key)} ;; {relay_msg_hash($1.content_hash)}
each @block_counter = (@block_counter + 1) ;; !{($1.height + @params.commit_delay) < @verified_peak_height} ;; {is_valid($1, @params)} ;; {receive_msg_hash($1.content_hash, $0)} ;; {has(@farmer_credit, $1.vdf_height)} ;; {erase(at(@farmer_credit, $1.vdf_height), at($1.proof, 0).farmer_key)} ;; {relay_msg_hash($1.content_hash)}
each publish($1, @output_blocks, 0) ;; !{($1.height + @params.commit_delay) < @verified_peak_height} ;; {is_valid($1, @params)} ;; {receive_msg_hash($1.content_hash, $0)}
never throw …
exit !{is_valid($1, @params)} | {($1.height + @params.commit_delay) < @verified_peak_height} | {did receive_msg_hash($1.content_hash, $0)}
exit {($1.height + @params.commit_delay) < @verified_peak_height} | {did disconnect($0)} | {is_valid($1, @params)}
at disconnect($0) ;; !{($1.height + @params.commit_delay) < @verified_peak_height}
at receive_msg_hash($1.content_hash, $0) ;; !{($1.height + @params.commit_delay) < @verified_peak_height} ;; {is_valid($1, @params)}
at validate($1) ;; !{($1.height + @params.commit_delay) < @verified_peak_height} ;; {is_valid($1, @params)} ;; {receive_msg_hash($1.content_hash, $0)}
at erase(at(@farmer_credit, $1.vdf_height), at($1.proof, 0).farmer_key) ;; !{($1.height + @params.commit_delay) < @verified_peak_height} ;; {is_valid($1, @params)} ;; {receive_msg_hash($1.content_hash, $0)} ;; {has(@farmer_credit, $1.vdf_height)}
at relay_msg_hash($1.content_hash) ;; !{($1.height + @params.commit_delay) < @verified_peak_height} ;; {is_valid($1, @params)} ;; {receive_msg_hash($1.content_hash, $0)} ;; {has(@farmer_credit, $1.vdf_height)} ;; {erase(at(@farmer_credit, $1.vdf_height), at($1.proof, 0).farmer_key)}
at relay($1, $1.content_hash, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>))) ;; !{($1.height + @params.commit_delay) < @verified_peak_height} ;; {is_valid($1, @params)} ;; {receive_msg_hash($1.content_hash, $0)} ;; {has(@farmer_credit, $1.vdf_height)} ;; {erase(at(@farmer_credit, $1.vdf_height), at($1.proof, 0).farmer_key)} ;; {relay_msg_hash($1.content_hash)}
at @block_counter = (@block_counter + 1) ;; !{($1.height + @params.commit_delay) < @verified_peak_height} ;; {is_valid($1, @params)} ;; {receive_msg_hash($1.content_hash, $0)} ;; {has(@farmer_credit, $1.vdf_height)} ;; {erase(at(@farmer_credit, $1.vdf_height), at($1.proof, 0).farmer_key)} ;; {relay_msg_hash($1.content_hash)}
at publish($1, @output_blocks, 0) ;; !{($1.height + @params.commit_delay) < @verified_peak_height} ;; {is_valid($1, @params)} ;; {receive_msg_hash($1.content_hash, $0)}
fn mmx::Router::on_error
each %shared_ptr<Return>.id = $1
each %shared_ptr<Return>.result = value($2)
each send_to($0, %shared_ptr<Return>, true)
never throw …
exit {did %shared_ptr<Return>.id = $1}
exit {did %shared_ptr<Return>.result = value($2)}
exit {did send_to($0, %shared_ptr<Return>, true)}
at %shared_ptr<Return>.id = $1
at %shared_ptr<Return>.result = value($2)
at send_to($0, %shared_ptr<Return>, true)
fn mmx::Router::on_msg
each find_peer($0).last_receive_ms = get_time_ms() ;; {find_peer($0)}
each on_vdf($0, $1) ;; {VNX_TYPE_ID == get_type_hash($1)} ;; {is<ProofOfTime>($1)} ;; {$1}
each on_vdf_point($0, $1) ;; {VNX_TYPE_ID == get_type_hash($1)} ;; {is<VDF_Point>($1)} ;; {$1}
each on_proof($0, $1) ;; {VNX_TYPE_ID == get_type_hash($1)} ;; {is<ProofResponse>($1)} ;; {$1}
each on_block($0, $1) ;; {VNX_TYPE_ID == get_type_hash($1)} ;; {is<Block>($1)} ;; {$1}
each on_vote($0, $1) ;; {VNX_TYPE_ID == get_type_hash($1)} ;; {is<ValidatorVote>($1)} ;; {$1}
each on_transaction($0, $1) ;; {VNX_TYPE_ID == get_type_hash($1)} ;; {is<Transaction>($1)} ;; {$1}
each on_request($0, $1) ;; {VNX_TYPE_ID == get_type_hash($1)} ;; {is<Request>($1)} ;; {$1}
each on_return($0, $1) ;; {VNX_TYPE_ID == get_type_hash($1)} ;; {is<Return>($1)} ;; {$1}
each on_recv_note($0, $1) ;; {VNX_TYPE_ID == get_type_hash($1)} ;; {is<ReceiveNote>($1)} ;; {$1}
never throw …
exit !{find_peer($0)} | {did find_peer($0).last_receive_ms = get_time_ms()}
exit !{$1} | !{VNX_TYPE_ID == get_type_hash($1)} | !{is<ProofOfTime>($1)} | {did on_vdf($0, $1)}
at find_peer($0).last_receive_ms = get_time_ms() ;; {find_peer($0)}
at on_vdf($0, $1) ;; {VNX_TYPE_ID == get_type_hash($1)} ;; {is<ProofOfTime>($1)} ;; {$1}
at on_vdf_point($0, $1) ;; {VNX_TYPE_ID == get_type_hash($1)} ;; {is<VDF_Point>($1)} ;; {$1}
at on_proof($0, $1) ;; {VNX_TYPE_ID == get_type_hash($1)} ;; {is<ProofResponse>($1)} ;; {$1}
at on_block($0, $1) ;; {VNX_TYPE_ID == get_type_hash($1)} ;; {is<Block>($1)} ;; {$1}
at on_vote($0, $1) ;; {VNX_TYPE_ID == get_type_hash($1)} ;; {is<ValidatorVote>($1)} ;; {$1}
at on_transaction($0, $1) ;; {VNX_TYPE_ID == get_type_hash($1)} ;; {is<Transaction>($1)} ;; {$1}
at on_request($0, $1) ;; {VNX_TYPE_ID == get_type_hash($1)} ;; {is<Request>($1)} ;; {$1}
at on_return($0, $1) ;; {VNX_TYPE_ID == get_type_hash($1)} ;; {is<Return>($1)} ;; {$1}
at on_recv_note($0, $1) ;; {VNX_TYPE_ID == get_type_hash($1)} ;; {is<ReceiveNote>($1)} ;; {$1}
fn mmx::Router::on_pause
each find_peer($0).is_blocked = true ;; {find_peer($0)}
never throw …
exit !{find_peer($0)} | {did find_peer($0).is_blocked = true}
at find_peer($0).is_blocked = true ;; {find_peer($0)}
fn mmx::Router::on_proof
each disconnect($0) ;; !{is_valid($1)}
each receive_msg_hash($1.content_hash, $0) ;; {is_valid($1)}
each publish($1, @output_proof, 0) ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)}
never throw …
exit !{is_valid($1)} | {did receive_msg_hash($1.content_hash, $0)}
exit {did disconnect($0)} | {is_valid($1)}
exit !{is_valid($1)} | !{receive_msg_hash($1.content_hash, $0)} | {did publish($1, @output_proof, 0)}
at disconnect($0) ;; !{is_valid($1)}
at receive_msg_hash($1.content_hash, $0) ;; {is_valid($1)}
at publish($1, @output_proof, 0) ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)}
fn mmx::Router::on_recv_note
each insert(find_peer($0).sent_hashes, $1.hash) ;; {find_peer($0)}
each push(find_peer($0).hash_queue, $1.hash) ;; {find_peer($0)} ;; {inserted(find_peer($0).sent_hashes, $1.hash)}
each find_peer($0).pending_cost = max((-at(find_peer($0).pending_map, $1.hash) + find_peer($0).pending_cost), 0) ;; {find_peer($0)} ;; {has(find_peer($0).pending_map, $1.hash)}
each erase(find_peer($0).pending_map, find(find_peer($0).pending_map, $1.hash)) ;; {find_peer($0)} ;; {has(find_peer($0).pending_map, $1.hash)}
never throw …
exit !{find_peer($0)} | {did insert(find_peer($0).sent_hashes, $1.hash)}
exit !{find_peer($0)} | !{has(find_peer($0).pending_map, $1.hash)} | {did erase(find_peer($0).pending_map, find(find_peer($0).pending_map, $1.hash))}
exit !{find_peer($0)} | !{has(find_peer($0).pending_map, $1.hash)} | {did find_peer($0).pending_cost = max((-at(find_peer($0).pending_map, $1.hash) + find_peer($0).pending_cost), 0)}
exit !{find_peer($0)} | !{inserted(find_peer($0).sent_hashes, $1.hash)} | {did push(find_peer($0).hash_queue, $1.hash)}
at insert(find_peer($0).sent_hashes, $1.hash) ;; {find_peer($0)}
at push(find_peer($0).hash_queue, $1.hash) ;; {find_peer($0)} ;; {inserted(find_peer($0).sent_hashes, $1.hash)}
at find_peer($0).pending_cost = max((-at(find_peer($0).pending_map, $1.hash) + find_peer($0).pending_cost), 0) ;; {find_peer($0)} ;; {has(find_peer($0).pending_map, $1.hash)}
at erase(find_peer($0).pending_map, find(find_peer($0).pending_map, $1.hash)) ;; {find_peer($0)} ;; {has(find_peer($0).pending_map, $1.hash)}
fn mmx::Router::on_request
each %shared_ptr<Return>.id = $1.id ;; {$1.method} ;; {find_peer($0)} ;; {find_peer($0).is_blocked}
each %shared_ptr<Return>.result = create() ;; {$1.method} ;; {find_peer($0)} ;; {find_peer($0).is_blocked}
each send_to($0, %shared_ptr<Return>, true) ;; {$1.method} ;; {find_peer($0)} ;; {find_peer($0).is_blocked}
each find_peer($0).is_paused = true ;; {$1.method} ;; {find_peer($0)} ;; {find_peer($0).is_blocked}
each send_result($0, $1.id, get_id()) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Router_get_id>($1.method)}
each send_result($0, $1.id, get_info()) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Router_get_info>($1.method)}
each send_result($0, $1.id, sign_msg($1.method.msg)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Router_sign_msg>($1.method)}
each send_result($0, $1.id, get_peers($1.method.max_count)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Router_get_peers>($1.method)}
each get_height(@node, lambda, bind(&on_error, this, $0, $1.id, std::placeholders::_1)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_height>($1.method)}
each send_result($0, $1.id, $cb0) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_height>($1.method)}
each get_synced_height(@node, lambda, bind(&on_error, this, $0, $1.id, std::placeholders::_1)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_synced_height>($1.method)}
each send_result($0, $1.id, $cb0) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_synced_height>($1.method)}
each get_block(@node, $1.method.hash, lambda, bind(&on_error, this, $0, $1.id, std::placeholders::_1)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_block>($1.method)}
each @upload_counter = (@upload_counter + 1) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_block>($1.method)}
each send_result($0, $1.id, $cb0) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_block>($1.method)}
each get_block_at(@node, $1.method.height, lambda, bind(&on_error, this, $0, $1.id, std::placeholders::_1)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_block_at>($1.method)}
each @upload_counter = (@upload_counter + 1) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_block_at>($1.method)}
each send_result($0, $1.id, $cb0) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_block_at>($1.method)}
each get_block_hash(@node, $1.method.height, lambda, bind(&on_error, this, $0, $1.id, std::placeholders::_1)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_block_hash>($1.method)}
each send_result($0, $1.id, $cb0) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_block_hash>($1.method)}
each get_block_hash_ex(@node, $1.method.height, lambda, bind(&on_error, this, $0, $1.id, std::placeholders::_1)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_block_hash_ex>($1.method)}
each send_result($0, $1.id, $cb0) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_block_hash_ex>($1.method)}
each get_header(@node, $1.method.hash, lambda, bind(&on_error, this, $0, $1.id, std::placeholders::_1)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_header>($1.method)}
each send_result($0, $1.id, $cb0) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_header>($1.method)}
each get_header_at(@node, $1.method.height, lambda, bind(&on_error, this, $0, $1.id, std::placeholders::_1)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_header_at>($1.method)}
each send_result($0, $1.id, $cb0) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_header_at>($1.method)}
each get_tx_ids_at(@node, $1.method.height, lambda, bind(&on_error, this, $0, $1.id, std::placeholders::_1)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_tx_ids_at>($1.method)}
each send_result($0, $1.id, $cb0) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_tx_ids_at>($1.method)}
each %shared_ptr<Return>.id = $1.id ;; {$1.method} ;; !{VNX_TYPE_ID == get_type_hash($1.method)}
each %shared_ptr<Return>.result = create() ;; {$1.method} ;; !{VNX_TYPE_ID == get_type_hash($1.method)}
each send_to($0, %shared_ptr<Return>, true) ;; {$1.method} ;; !{VNX_TYPE_ID == get_type_hash($1.method)}
never throw …
exit !{$1.method} | !{find_peer($0).is_blocked} | !{find_peer($0)} | {did %shared_ptr<Return>.id = $1.id}
exit !{$1.method} | !{find_peer($0).is_blocked} | !{find_peer($0)} | {did %shared_ptr<Return>.result = create()}
exit !{$1.method} | !{find_peer($0).is_blocked} | !{find_peer($0)} | {did find_peer($0).is_paused = true}
exit !{$1.method} | !{find_peer($0).is_blocked} | !{find_peer($0)} | {did send_to($0, %shared_ptr<Return>, true)}
exit !{$1.method} | {VNX_TYPE_ID == get_type_hash($1.method)} | {did %shared_ptr<Return>.id = $1.id} | {find_peer($0).is_blocked}
exit !{$1.method} | {VNX_TYPE_ID == get_type_hash($1.method)} | {did %shared_ptr<Return>.id = $1.id} | {find_peer($0)}
exit !{$1.method} | {VNX_TYPE_ID == get_type_hash($1.method)} | {did %shared_ptr<Return>.result = create()} | {find_peer($0).is_blocked}
exit !{$1.method} | {VNX_TYPE_ID == get_type_hash($1.method)} | {did %shared_ptr<Return>.result = create()} | {find_peer($0)}
exit !{$1.method} | {VNX_TYPE_ID == get_type_hash($1.method)} | {did send_to($0, %shared_ptr<Return>, true)} | {find_peer($0).is_blocked}
exit !{$1.method} | {VNX_TYPE_ID == get_type_hash($1.method)} | {did send_to($0, %shared_ptr<Return>, true)} | {find_peer($0)}
exit !{$1.method} | !{VNX_TYPE_ID == get_type_hash($1.method)} | !{is<Router_get_id>($1.method)} | {did send_result($0, $1.id, get_id())} | {find_peer($0).is_blocked}
exit !{$1.method} | !{VNX_TYPE_ID == get_type_hash($1.method)} | !{is<Router_get_id>($1.method)} | {did send_result($0, $1.id, get_id())} | {find_peer($0)}
at %shared_ptr<Return>.id = $1.id ;; {$1.method}
at %shared_ptr<Return>.result = create() ;; {$1.method}
at send_to($0, %shared_ptr<Return>, true) ;; {$1.method}
at find_peer($0).is_paused = true ;; {$1.method} ;; {find_peer($0)} ;; {find_peer($0).is_blocked}
at send_result($0, $1.id, get_id()) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Router_get_id>($1.method)} ;; {$1.method} ;; !{find_peer($0).is_blocked} | !{find_peer($0)}
at send_result($0, $1.id, get_info()) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Router_get_info>($1.method)} ;; {$1.method} ;; !{find_peer($0).is_blocked} | !{find_peer($0)}
at send_result($0, $1.id, sign_msg($1.method.msg)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Router_sign_msg>($1.method)} ;; {$1.method} ;; !{find_peer($0).is_blocked} | !{find_peer($0)}
at send_result($0, $1.id, get_peers($1.method.max_count)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Router_get_peers>($1.method)} ;; {$1.method} ;; !{find_peer($0).is_blocked} | !{find_peer($0)}
at get_height(@node, lambda, bind(&on_error, this, $0, $1.id, std::placeholders::_1)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_height>($1.method)} ;; {$1.method} ;; !{find_peer($0).is_blocked} | !{find_peer($0)}
at send_result($0, $1.id, $cb0) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {$1.method} ;; !{find_peer($0).is_blocked} | !{find_peer($0)}
at get_synced_height(@node, lambda, bind(&on_error, this, $0, $1.id, std::placeholders::_1)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_synced_height>($1.method)} ;; {$1.method} ;; !{find_peer($0).is_blocked} | !{find_peer($0)}
at get_block(@node, $1.method.hash, lambda, bind(&on_error, this, $0, $1.id, std::placeholders::_1)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_block>($1.method)} ;; {$1.method} ;; !{find_peer($0).is_blocked} | !{find_peer($0)}
at @upload_counter = (@upload_counter + 1) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {$1.method} ;; !{find_peer($0).is_blocked} | !{find_peer($0)}
at get_block_at(@node, $1.method.height, lambda, bind(&on_error, this, $0, $1.id, std::placeholders::_1)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_block_at>($1.method)} ;; {$1.method} ;; !{find_peer($0).is_blocked} | !{find_peer($0)}
at get_block_hash(@node, $1.method.height, lambda, bind(&on_error, this, $0, $1.id, std::placeholders::_1)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_block_hash>($1.method)} ;; {$1.method} ;; !{find_peer($0).is_blocked} | !{find_peer($0)}
at get_block_hash_ex(@node, $1.method.height, lambda, bind(&on_error, this, $0, $1.id, std::placeholders::_1)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_block_hash_ex>($1.method)} ;; {$1.method} ;; !{find_peer($0).is_blocked} | !{find_peer($0)}
at get_header(@node, $1.method.hash, lambda, bind(&on_error, this, $0, $1.id, std::placeholders::_1)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_header>($1.method)} ;; {$1.method} ;; !{find_peer($0).is_blocked} | !{find_peer($0)}
at get_header_at(@node, $1.method.height, lambda, bind(&on_error, this, $0, $1.id, std::placeholders::_1)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_header_at>($1.method)} ;; {$1.method} ;; !{find_peer($0).is_blocked} | !{find_peer($0)}
at get_tx_ids_at(@node, $1.method.height, lambda, bind(&on_error, this, $0, $1.id, std::placeholders::_1)) ;; {$1.method} ;; {VNX_TYPE_ID == get_type_hash($1.method)} ;; {is<Node_get_tx_ids_at>($1.method)} ;; {$1.method} ;; !{find_peer($0).is_blocked} | !{find_peer($0)}
fn mmx::Router::on_resume
each resume($0) ;; {find_peer($0)} ;; {find_peer($0).is_paused}
each find_peer($0).is_paused = false ;; {find_peer($0)} ;; {find_peer($0).is_paused}
each find_peer($0).is_blocked = false ;; {find_peer($0)}
never throw …
exit !{find_peer($0)} | {did find_peer($0).is_blocked = false}
exit !{find_peer($0).is_paused} | !{find_peer($0)} | {did find_peer($0).is_paused = false}
exit !{find_peer($0).is_paused} | !{find_peer($0)} | {did resume($0)}
at resume($0) ;; {find_peer($0)} ;; {find_peer($0).is_paused}
at find_peer($0).is_paused = false ;; {find_peer($0)} ;; {find_peer($0).is_paused}
at find_peer($0).is_blocked = false ;; {find_peer($0)}
fn mmx::Router::on_return
never break(@peer_map)
each process($1)
each insert(@self_addrs, find_peer($0).address) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Router_get_id_return>($1.result)} ;; {$1.result._ret_0 == get_id()} ;; {find_peer($0)}
each disconnect($0) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Router_get_id_return>($1.result)} ;; {$1.result._ret_0 == get_id()}
each %shared_ptr<Router_sign_msg>.msg = find_peer($0).challenge ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Router_get_info_return>($1.result)} ;; {find_peer($0)} ;; {102 < $1.result._ret_0.version}
each send_request(find_peer($0), %shared_ptr<Router_sign_msg>, true) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Router_get_info_return>($1.result)} ;; {find_peer($0)} ;; {102 < $1.result._ret_0.version}
each find_peer($0).info = $1.result._ret_0 ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Router_get_info_return>($1.result)} ;; {find_peer($0)}
each disconnect(elem(@peer_map).second.client) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Router_sign_msg_return>($1.result)} ;; {find_peer($0)} ;; {find_peer($0).info.id == get_addr($1.result._ret_0.first)} ;; {verify($1.result._ret_0.second, $1.result._ret_0.first, find_peer($0).challenge)} ;; {elem(@peer_map).second.node_id} ;; {elem(@peer_map).second.node_id == get_addr($1.result._ret_0.first)}
each find_peer($0).node_id = get_addr($1.result._ret_0.first) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Router_sign_msg_return>($1.result)} ;; {find_peer($0)} ;; {find_peer($0).info.id == get_addr($1.result._ret_0.first)} ;; {verify($1.result._ret_0.second, $1.result._ret_0.first, find_peer($0).challenge)}
each disconnect($0) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Router_sign_msg_return>($1.result)} ;; {find_peer($0)} ;; !{find_peer($0).info.id == get_addr($1.result._ret_0.first)} | !{verify($1.result._ret_0.second, $1.result._ret_0.first, find_peer($0).challenge)}
each insert(@peer_retry_map, elem($1.result._ret_0), 0) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Router_get_peers_return>($1.result)} ;; {is_valid_address(elem($1.result._ret_0))} ;; {is_valid_ip_addr(elem($1.result._ret_0))}
each find_peer($0).height = $1.result._ret_0 ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Node_get_height_return>($1.result)} ;; {find_peer($0)}
each find_peer($0).ping_ms = i32((-@last_query_ms + get_time_ms())) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Node_get_synced_height_return>($1.result)} ;; {find_peer($0)} ;; {@last_query_ms}
each find_peer($0).height = $1.result._ret_0 ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Node_get_synced_height_return>($1.result)} ;; {find_peer($0)} ;; {$1.result._ret_0}
each find_peer($0).is_synced = true ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Node_get_synced_height_return>($1.result)} ;; {find_peer($0)} ;; {$1.result._ret_0}
each insert(@synced_peers, $0) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Node_get_synced_height_return>($1.result)} ;; {find_peer($0)} ;; {$1.result._ret_0} ;; {find_peer($0).info.type == node_type_e::FULL_NODE}
each find_peer($0).is_synced = false ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Node_get_synced_height_return>($1.result)} ;; {find_peer($0)} ;; !{$1.result._ret_0}
each erase(@synced_peers, $0) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Node_get_synced_height_return>($1.result)} ;; {find_peer($0)} ;; !{$1.result._ret_0}
each send_request($0, create(), true) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Node_get_synced_height_return>($1.result)} ;; {find_peer($0)} ;; !{$1.result._ret_0}
each disconnect($0) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Node_get_block_hash_return>($1.result)} ;; {$1.id == @peer_check.request_id} ;; !{$1.result._ret_0 == @peer_check.our_hash} | !{$1.result._ret_0} ;; {find_peer($0)} ;; {find_peer($0).is_synced}
never throw …
value fold(0, (~ + 1), $1.result._ret_0)
exit {did process($1)}
at process($1)
at insert(@self_addrs, find_peer($0).address) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Router_get_id_return>($1.result)} ;; {$1.result} ;; {$1.result._ret_0 == get_id()} ;; {find_peer($0)}
at disconnect($0) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {$1.result}
at %shared_ptr<Router_sign_msg>.msg = find_peer($0).challenge ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Router_get_info_return>($1.result)} ;; {$1.result} ;; {find_peer($0)} ;; {102 < $1.result._ret_0.version}
at send_request(find_peer($0), %shared_ptr<Router_sign_msg>, true) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Router_get_info_return>($1.result)} ;; {$1.result} ;; {find_peer($0)} ;; {102 < $1.result._ret_0.version}
at find_peer($0).info = $1.result._ret_0 ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Router_get_info_return>($1.result)} ;; {$1.result} ;; {find_peer($0)}
at disconnect(elem(@peer_map).second.client) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Router_sign_msg_return>($1.result)} ;; {$1.result} ;; {find_peer($0)} ;; {find_peer($0).info.id == get_addr($1.result._ret_0.first)} ;; {verify($1.result._ret_0.second, $1.result._ret_0.first, find_peer($0).challenge)} ;; {elem(@peer_map).second.node_id} ;; {elem(@peer_map).second.node_id == get_addr($1.result._ret_0.first)}
at find_peer($0).node_id = get_addr($1.result._ret_0.first) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Router_sign_msg_return>($1.result)} ;; {$1.result} ;; {find_peer($0)} ;; {find_peer($0).info.id == get_addr($1.result._ret_0.first)} ;; {verify($1.result._ret_0.second, $1.result._ret_0.first, find_peer($0).challenge)}
at insert(@peer_retry_map, elem($1.result._ret_0), 0) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Router_get_peers_return>($1.result)} ;; {$1.result} ;; {is_valid_address(elem($1.result._ret_0))} ;; {is_valid_ip_addr(elem($1.result._ret_0))}
never break($1.result._ret_0) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Router_get_peers_return>($1.result)} ;; {$1.result} ;; {9 < (fold(0, (~ + 1), $1.result._ret_0) + 1)}
at find_peer($0).height = $1.result._ret_0 ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {$1.result} ;; {find_peer($0)}
at find_peer($0).ping_ms = i32((-@last_query_ms + get_time_ms())) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Node_get_synced_height_return>($1.result)} ;; {$1.result} ;; {find_peer($0)} ;; {@last_query_ms}
at find_peer($0).is_synced = true ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Node_get_synced_height_return>($1.result)} ;; {$1.result} ;; {find_peer($0)} ;; {$1.result._ret_0}
at insert(@synced_peers, $0) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Node_get_synced_height_return>($1.result)} ;; {$1.result} ;; {find_peer($0)} ;; {$1.result._ret_0} ;; {find_peer($0).info.type == node_type_e::FULL_NODE}
at find_peer($0).is_synced = false ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Node_get_synced_height_return>($1.result)} ;; {$1.result} ;; {find_peer($0)} ;; !{$1.result._ret_0}
at erase(@synced_peers, $0) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Node_get_synced_height_return>($1.result)} ;; {$1.result} ;; {find_peer($0)} ;; !{$1.result._ret_0}
at send_request($0, create(), true) ;; !{process($1)} ;; {$1.result} ;; {VNX_TYPE_ID == get_type_hash($1.result)} ;; {is<Node_get_synced_height_return>($1.result)} ;; {$1.result} ;; {find_peer($0)} ;; !{$1.result._ret_0}
fn mmx::Router::on_transaction
each disconnect($0) ;; !{is_valid($1, @params)} | {$1.exec_result}
each receive_msg_hash($1.content_hash, $0) ;; {is_valid($1, @params)} ;; !{$1.exec_result}
each publish($1, @output_transactions, 0) ;; {is_valid($1, @params)} ;; !{$1.exec_result} ;; {receive_msg_hash($1.content_hash, $0)}
never throw …
exit !{$1.exec_result} | {did disconnect($0)}
exit {did disconnect($0)} | {is_valid($1, @params)}
exit !{is_valid($1, @params)} | {$1.exec_result} | {did receive_msg_hash($1.content_hash, $0)}
exit !{is_valid($1, @params)} | !{receive_msg_hash($1.content_hash, $0)} | {$1.exec_result} | {did publish($1, @output_transactions, 0)}
at disconnect($0) ;; !{is_valid($1, @params)} | {$1.exec_result}
at receive_msg_hash($1.content_hash, $0) ;; {is_valid($1, @params)} ;; !{$1.exec_result}
at publish($1, @output_transactions, 0) ;; {is_valid($1, @params)} ;; !{$1.exec_result} ;; {receive_msg_hash($1.content_hash, $0)}
fn mmx::Router::on_vdf
each disconnect($0) ;; !{($1.vdf_height + @params.commit_delay) < @verified_vdf_height} ;; !{is_valid($1)}
each receive_msg_hash($1.content_hash, $0) ;; !{($1.vdf_height + @params.commit_delay) < @verified_vdf_height} ;; {is_valid($1)}
each validate($1) ;; !{($1.vdf_height + @params.commit_delay) < @verified_vdf_height} ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)}
each disconnect($0) ;; !{($1.vdf_height + @params.commit_delay) < @verified_vdf_height} ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)}
each relay_msg_hash($1.content_hash) ;; !{($1.vdf_height + @params.commit_delay) < @verified_vdf_height} ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)} ;; {size($1.segments) < @max_vdf_segments} ;; {has(@timelord_credit, $1.timelord_key)} ;; {at(@timelord_credit, $1.timelord_key)}
each at(@timelord_credit, $1.timelord_key) = (at(@timelord_credit, $1.timelord_key) + -1) ;; !{($1.vdf_height + @params.commit_delay) < @verified_vdf_height} ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)} ;; {size($1.segments) < @max_vdf_segments} ;; {has(@timelord_credit, $1.timelord_key)} ;; {at(@timelord_credit, $1.timelord_key)} ;; {relay_msg_hash($1.content_hash)}
each relay($1, $1.content_hash, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>))) ;; !{($1.vdf_height + @params.commit_delay) < @verified_vdf_height} ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)} ;; {size($1.segments) < @max_vdf_segments} ;; {has(@timelord_credit, $1.timelord_key)} ;; {at(@timelord_credit, $1.timelord_key)} ;; {relay_msg_hash($1.content_hash)}
each @vdf_counter = (@vdf_counter + 1) ;; !{($1.vdf_height + @params.commit_delay) < @verified_vdf_height} ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)} ;; {size($1.segments) < @max_vdf_segments} ;; {has(@timelord_credit, $1.timelord_key)} ;; {at(@timelord_credit, $1.timelord_key)} ;; {relay_msg_hash($1.content_hash)}
each publish($1, @output_vdfs, 0) ;; !{($1.vdf_height + @params.commit_delay) < @verified_vdf_height} ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)}
never throw …
exit !{is_valid($1)} | {($1.vdf_height + @params.commit_delay) < @verified_vdf_height} | {did receive_msg_hash($1.content_hash, $0)}
exit {($1.vdf_height + @params.commit_delay) < @verified_vdf_height} | {did disconnect($0)} | {is_valid($1)}
at disconnect($0) ;; !{($1.vdf_height + @params.commit_delay) < @verified_vdf_height}
at receive_msg_hash($1.content_hash, $0) ;; !{($1.vdf_height + @params.commit_delay) < @verified_vdf_height} ;; {is_valid($1)}
at validate($1) ;; !{($1.vdf_height + @params.commit_delay) < @verified_vdf_height} ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)}
at relay_msg_hash($1.content_hash) ;; !{($1.vdf_height + @params.commit_delay) < @verified_vdf_height} ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)} ;; {size($1.segments) < @max_vdf_segments} ;; {has(@timelord_credit, $1.timelord_key)} ;; {at(@timelord_credit, $1.timelord_key)}
at at(@timelord_credit, $1.timelord_key) = (at(@timelord_credit, $1.timelord_key) + -1) ;; !{($1.vdf_height + @params.commit_delay) < @verified_vdf_height} ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)} ;; {size($1.segments) < @max_vdf_segments} ;; {has(@timelord_credit, $1.timelord_key)} ;; {at(@timelord_credit, $1.timelord_key)} ;; {relay_msg_hash($1.content_hash)}
at relay($1, $1.content_hash, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>))) ;; !{($1.vdf_height + @params.commit_delay) < @verified_vdf_height} ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)} ;; {size($1.segments) < @max_vdf_segments} ;; {has(@timelord_credit, $1.timelord_key)} ;; {at(@timelord_credit, $1.timelord_key)} ;; {relay_msg_hash($1.content_hash)}
at @vdf_counter = (@vdf_counter + 1) ;; !{($1.vdf_height + @params.commit_delay) < @verified_vdf_height} ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)} ;; {size($1.segments) < @max_vdf_segments} ;; {has(@timelord_credit, $1.timelord_key)} ;; {at(@timelord_credit, $1.timelord_key)} ;; {relay_msg_hash($1.content_hash)}
at publish($1, @output_vdfs, 0) ;; !{($1.vdf_height + @params.commit_delay) < @verified_vdf_height} ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)}
fn mmx::Router::on_vdf_point
each receive_msg_hash($1.content_hash, $0) ;; {find_peer($0)} ;; {has(@master_nodes, find_peer($0).host_name)} ;; {is_valid($1)}
each clone($1).recv_time = get_time_ms() ;; {find_peer($0)} ;; {has(@master_nodes, find_peer($0).host_name)} ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)}
each publish(clone($1), @output_vdf_points, 0) ;; {find_peer($0)} ;; {has(@master_nodes, find_peer($0).host_name)} ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)}
never throw …
exit !{find_peer($0)} | !{has(@master_nodes, find_peer($0).host_name)} | !{is_valid($1)} | {did receive_msg_hash($1.content_hash, $0)}
exit !{find_peer($0)} | !{has(@master_nodes, find_peer($0).host_name)} | !{is_valid($1)} | !{receive_msg_hash($1.content_hash, $0)} | {did clone($1).recv_time = get_time_ms()}
exit !{find_peer($0)} | !{has(@master_nodes, find_peer($0).host_name)} | !{is_valid($1)} | !{receive_msg_hash($1.content_hash, $0)} | {did publish(clone($1), @output_vdf_points, 0)}
at receive_msg_hash($1.content_hash, $0) ;; {find_peer($0)} ;; {has(@master_nodes, find_peer($0).host_name)} ;; {is_valid($1)}
at clone($1).recv_time = get_time_ms() ;; {find_peer($0)} ;; {has(@master_nodes, find_peer($0).host_name)} ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)}
at publish(clone($1), @output_vdf_points, 0) ;; {find_peer($0)} ;; {has(@master_nodes, find_peer($0).host_name)} ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)}
fn mmx::Router::on_vote
each disconnect($0) ;; !{is_valid($1)}
each receive_msg_hash($1.content_hash, $0) ;; {is_valid($1)}
each publish($1, @output_votes, 0) ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)}
never throw …
exit !{is_valid($1)} | {did receive_msg_hash($1.content_hash, $0)}
exit {did disconnect($0)} | {is_valid($1)}
exit !{is_valid($1)} | !{receive_msg_hash($1.content_hash, $0)} | {did publish($1, @output_votes, 0)}
at disconnect($0) ;; !{is_valid($1)}
at receive_msg_hash($1.content_hash, $0) ;; {is_valid($1)}
at publish($1, @output_votes, 0) ;; {is_valid($1)} ;; {receive_msg_hash($1.content_hash, $0)}
fn mmx::Router::receive_msg_hash
each insert(@hash_info, $0, ctor(Router::hash_info_t))
each recv_notify($0) ;; {inserted(@hash_info, $0)}
each push(@hash_queue, $0) ;; {inserted(@hash_info, $0)}
each insert(find_peer($1).sent_hashes, $0) ;; {find_peer($1)}
each push(find_peer($1).hash_queue, $0) ;; {find_peer($1)} ;; {inserted(find_peer($1).sent_hashes, $0)}
never throw …
exit {did insert(@hash_info, $0, ctor(Router::hash_info_t))}
exit !{find_peer($1)} | {did insert(find_peer($1).sent_hashes, $0)}
exit !{inserted(@hash_info, $0)} | {did push(@hash_queue, $0)}
exit !{inserted(@hash_info, $0)} | {did recv_notify($0)}
exit !{find_peer($1)} | !{inserted(find_peer($1).sent_hashes, $0)} | {did push(find_peer($1).hash_queue, $0)}
true {inserted(@hash_info, $0)}
false !{inserted(@hash_info, $0)}
at insert(@hash_info, $0, ctor(Router::hash_info_t))
at recv_notify($0) ;; {inserted(@hash_info, $0)}
at push(@hash_queue, $0) ;; {inserted(@hash_info, $0)}
at insert(find_peer($1).sent_hashes, $0) ;; {find_peer($1)}
at push(find_peer($1).hash_queue, $0) ;; {find_peer($1)} ;; {inserted(find_peer($1).sent_hashes, $0)}
fn mmx::Router::recv_notify
never break(@peer_map)
each %shared_ptr<ReceiveNote>.time = get_time_us()
each %shared_ptr<ReceiveNote>.hash = $0
each send_to(elem(@peer_map).second, %shared_ptr<ReceiveNote>, true)
never throw …
exit {did %shared_ptr<ReceiveNote>.hash = $0}
exit {did %shared_ptr<ReceiveNote>.time = get_time_us()}
exit {did send_to(elem(@peer_map).second, %shared_ptr<ReceiveNote>, true)}
at %shared_ptr<ReceiveNote>.time = get_time_us()
at %shared_ptr<ReceiveNote>.hash = $0
at send_to(elem(@peer_map).second, %shared_ptr<ReceiveNote>, true)
fn mmx::Router::relay
each broadcast($0, $1, $2, false, false) ;; {@do_relay}
never throw …
exit !{@do_relay} | {did broadcast($0, $1, $2, false, false)}
at broadcast($0, $1, $2, false, false) ;; {@do_relay}
fn mmx::Router::relay_msg_hash
each insert(@hash_info, $0, ctor(Router::hash_info_t))
each recv_notify($0) ;; {inserted(@hash_info, $0)}
each push(@hash_queue, $0) ;; {inserted(@hash_info, $0)}
each insert(@hash_info, $0).first.second.did_relay = true ;; !{insert(@hash_info, $0).first.second.did_relay}
never throw …
exit {did insert(@hash_info, $0, ctor(Router::hash_info_t))}
exit !{inserted(@hash_info, $0)} | {did push(@hash_queue, $0)}
exit !{inserted(@hash_info, $0)} | {did recv_notify($0)}
exit {did insert(@hash_info, $0).first.second.did_relay = true} | {insert(@hash_info, $0).first.second.did_relay}
true !{insert(@hash_info, $0).first.second.did_relay}
false {insert(@hash_info, $0).first.second.did_relay}
at insert(@hash_info, $0, ctor(Router::hash_info_t))
at recv_notify($0) ;; {inserted(@hash_info, $0)}
at push(@hash_queue, $0) ;; {inserted(@hash_info, $0)}
at insert(@hash_info, $0).first.second.did_relay = true ;; !{insert(@hash_info, $0).first.second.did_relay}
fn mmx::Router::send
never break(loop)
never break(@peer_map)
each @tx_upload_credits = (((@tx_upload_bandwidth * f64(@send_interval_ms)) / 1000) + @tx_upload_credits)
each @tx_upload_credits = min((((@tx_upload_bandwidth * f64(@send_interval_ms)) / 1000) + @tx_upload_credits), @tx_upload_bandwidth)
each send_to(elem(@peer_map).second, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.value, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.reliable) ;; !{end(elem(@peer_map).second.send_queue) == fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~))} ;; {fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).first < get_time_us()} ;; !{has(elem(@peer_map).second.sent_hashes, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash)}
each insert(elem(@peer_map).second.sent_hashes, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash) ;; !{end(elem(@peer_map).second.send_queue) == fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~))} ;; {fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).first < get_time_us()} ;; !{has(elem(@peer_map).second.sent_hashes, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash)} ;; {send_to(elem(@peer_map).second, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.value, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.reliable)}
each push(elem(@peer_map).second.hash_queue, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash) ;; !{end(elem(@peer_map).second.send_queue) == fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~))} ;; {fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).first < get_time_us()} ;; !{has(elem(@peer_map).second.sent_hashes, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash)} ;; {send_to(elem(@peer_map).second, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.value, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.reliable)} ;; {inserted(elem(@peer_map).second.sent_hashes, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash)}
each erase(elem(@peer_map).second.send_queue, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~))) ;; !{end(elem(@peer_map).second.send_queue) == fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~))} ;; {fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).first < get_time_us()}
never throw …
value fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~))
exit {did @tx_upload_credits = (((@tx_upload_bandwidth * f64(@send_interval_ms)) / 1000) + @tx_upload_credits)}
exit {did @tx_upload_credits = min((((@tx_upload_bandwidth * f64(@send_interval_ms)) / 1000) + @tx_upload_credits), @tx_upload_bandwidth)}
exit {did erase(elem(@peer_map).second.send_queue, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)))}
exit !{fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).first < get_time_us()} | {end(elem(@peer_map).second.send_queue) == fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~))}
exit {did send_to(elem(@peer_map).second, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.value, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.reliable)} | {has(elem(@peer_map).second.sent_hashes, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash)}
exit !{send_to(elem(@peer_map).second, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.value, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.reliable)} | {did insert(elem(@peer_map).second.sent_hashes, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash)} | {has(elem(@peer_map).second.sent_hashes, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash)}
exit !{send_to(elem(@peer_map).second, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.value, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.reliable)} | {has(elem(@peer_map).second.sent_hashes, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash)} | {inserted(elem(@peer_map).second.sent_hashes, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash)}
exit !{inserted(elem(@peer_map).second.sent_hashes, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash)} | !{send_to(elem(@peer_map).second, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.value, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.reliable)} | {did push(elem(@peer_map).second.hash_queue, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash)} | {has(elem(@peer_map).second.sent_hashes, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash)}
at @tx_upload_credits = (((@tx_upload_bandwidth * f64(@send_interval_ms)) / 1000) + @tx_upload_credits)
at @tx_upload_credits = min((((@tx_upload_bandwidth * f64(@send_interval_ms)) / 1000) + @tx_upload_credits), @tx_upload_bandwidth)
at send_to(elem(@peer_map).second, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.value, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.reliable) ;; !{end(elem(@peer_map).second.send_queue) == fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~))} ;; {fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).first < get_time_us()} ;; !{has(elem(@peer_map).second.sent_hashes, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash)}
at insert(elem(@peer_map).second.sent_hashes, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash) ;; !{end(elem(@peer_map).second.send_queue) == fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~))} ;; {fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).first < get_time_us()} ;; !{has(elem(@peer_map).second.sent_hashes, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash)} ;; {send_to(elem(@peer_map).second, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.value, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.reliable)}
at push(elem(@peer_map).second.hash_queue, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash) ;; !{end(elem(@peer_map).second.send_queue) == fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~))} ;; {fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).first < get_time_us()} ;; !{has(elem(@peer_map).second.sent_hashes, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash)} ;; {send_to(elem(@peer_map).second, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.value, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.reliable)} ;; {inserted(elem(@peer_map).second.sent_hashes, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).second.hash)}
at erase(elem(@peer_map).second.send_queue, fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~))) ;; !{end(elem(@peer_map).second.send_queue) == fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~))} ;; {fold(begin(elem(@peer_map).second.send_queue), erase(elem(@peer_map).second.send_queue, ~)).first < get_time_us()}
fn mmx::Router::send_all
never break(@peer_map)
each send_to(elem(@peer_map).second, $0, $2) ;; {empty($1)} | {has($1, elem(@peer_map).second.info.type)}
never throw …
exit !{empty($1)} | {did send_to(elem(@peer_map).second, $0, $2)}
exit !{has($1, elem(@peer_map).second.info.type)} | {did send_to(elem(@peer_map).second, $0, $2)}
at send_to(elem(@peer_map).second, $0, $2) ;; {empty($1)} | {has($1, elem(@peer_map).second.info.type)}
fn mmx::Router::send_request sig=(std::shared_ptr<mmx::Router::peer_t>,~std::shared_ptr<const~vnx::Value>,~bool)
each @next_request_id = (@next_request_id + 1)
each %shared_ptr<Request>.id = @next_request_id
each %shared_ptr<Request>.method = $1
each send_to($0, %shared_ptr<Request>, $2)
never throw …
exit {did %shared_ptr<Request>.id = @next_request_id}
exit {did %shared_ptr<Request>.method = $1}
exit {did @next_request_id = (@next_request_id + 1)}
exit {did send_to($0, %shared_ptr<Request>, $2)}
exit {ret = @next_request_id}
at @next_request_id = (@next_request_id + 1)
at %shared_ptr<Request>.id = @next_request_id
at %shared_ptr<Request>.method = $1
at send_to($0, %shared_ptr<Request>, $2)
fn mmx::Router::send_request sig=(unsigned~long,~std::shared_ptr<const~vnx::Value>,~bool)
each @next_request_id = (@next_request_id + 1)
each %shared_ptr<Request>.id = @next_request_id
each %shared_ptr<Request>.method = $1
each send_to($0, %shared_ptr<Request>, $2)
never throw …
exit {did %shared_ptr<Request>.id = @next_request_id}
exit {did %shared_ptr<Request>.method = $1}
exit {did @next_request_id = (@next_request_id + 1)}
exit {did send_to($0, %shared_ptr<Request>, $2)}
exit {ret = @next_request_id}
at @next_request_id = (@next_request_id + 1)
at %shared_ptr<Request>.id = @next_request_id
at %shared_ptr<Request>.method = $1
at send_to($0, %shared_ptr<Request>, $2)
fn mmx::Router::send_result
each %shared_ptr<Return>.id = $1
each %shared_ptr<Router_get_id_return>._ret_0 = $2
each %shared_ptr<Return>.result = %shared_ptr<Router_get_id_return>
each send_to($0, %shared_ptr<Return>, true)
never throw …
exit {did %shared_ptr<Return>.id = $1}
exit {did %shared_ptr<Return>.result = %shared_ptr<Router_get_id_return>}
exit {did %shared_ptr<Router_get_id_return>._ret_0 = $2}
exit {did send_to($0, %shared_ptr<Return>, true)}
at %shared_ptr<Return>.id = $1
at %shared_ptr<Router_get_id_return>._ret_0 = $2
at %shared_ptr<Return>.result = %shared_ptr<Router_get_id_return>
at send_to($0, %shared_ptr<Return>, true)
fn mmx::Router::send_to sig=(std::vector<std::shared_ptr<mmx::Router::peer_t>,~std::allocator<std::shared_ptr<mmx::Router::peer_t>>>,~std::shared_ptr<const~vnx::Value>,~const~mmx::hash_t~&,~bool)
each shuffle(begin($0), end($0), @rand_engine)
each %Router::send_item_t.hash = $2
each %Router::send_item_t.value = $1
each %Router::send_item_t.reliable = $3
each insert(elem($0).send_queue, (((w64((1000 * @relay_target_ms)) / (size($0) + 1)) * idx($0)) + get_time_us()), %Router::send_item_t)
never break($0)
never throw …
exit {did insert(elem($0).send_queue, (((w64((1000 * @relay_target_ms)) / (size($0) + 1)) * idx($0)) + get_time_us()), %Router::send_item_t)}
exit {did shuffle(begin($0), end($0), @rand_engine)}
exit {did %Router::send_item_t.hash = $2} | {empty($0)}
exit {did %Router::send_item_t.reliable = $3} | {empty($0)}
exit {did %Router::send_item_t.value = $1} | {empty($0)}
at shuffle(begin($0), end($0), @rand_engine)
at %Router::send_item_t.hash = $2
at %Router::send_item_t.value = $1
at %Router::send_item_t.reliable = $3
at insert(elem($0).send_queue, (((w64((1000 * @relay_target_ms)) / (size($0) + 1)) * idx($0)) + get_time_us()), %Router::send_item_t)
fn mmx::Router::send_to sig=(unsigned~long,~std::shared_ptr<const~vnx::Value>,~bool)
each send_to(find_peer($0), $1, $2) ;; {find_peer($0)}
never throw …
exit !{find_peer($0)} | {did send_to(find_peer($0), $1, $2)}
true {find_peer($0)}
true {send_to(find_peer($0), $1, $2)}
false !{find_peer($0)} | !{send_to(find_peer($0), $1, $2)}
at send_to(find_peer($0), $1, $2) ;; {find_peer($0)}
fn mmx::Router::send_to sig=(std::shared_ptr<mmx::Router::peer_t>,~std::shared_ptr<const~vnx::Value>,~bool)
each @block_drop_counter = (@block_drop_counter + 1) ;; {$0.is_valid} ;; !{$2} ;; {$0.is_blocked} ;; {VNX_TYPE_ID == get_type_hash($1)}
each @tx_drop_counter = (@tx_drop_counter + 1) ;; {$0.is_valid} ;; !{$2} ;; {$0.is_blocked} ;; {VNX_TYPE_ID == get_type_hash($1)}
each @vdf_drop_counter = (@vdf_drop_counter + 1) ;; {$0.is_valid} ;; !{$2} ;; {$0.is_blocked} ;; {VNX_TYPE_ID == get_type_hash($1)}
each @proof_drop_counter = (@proof_drop_counter + 1) ;; {$0.is_valid} ;; !{$2} ;; {$0.is_blocked} ;; {VNX_TYPE_ID == get_type_hash($1)}
each %shared_ptr<Return>.id = $1.id ;; {$0.is_valid} ;; !{$2} ;; {$0.is_blocked} ;; !{VNX_TYPE_ID == get_type_hash($1)} ;; {is<Request>($1)} ;; {$1}
each %shared_ptr<Return>.result = create() ;; {$0.is_valid} ;; !{$2} ;; {$0.is_blocked} ;; !{VNX_TYPE_ID == get_type_hash($1)} ;; {is<Request>($1)} ;; {$1}
each add_task(bind(&on_return, this, $0.client, %shared_ptr<Return>)) ;; {$0.is_valid} ;; !{$2} ;; {$0.is_blocked} ;; !{VNX_TYPE_ID == get_type_hash($1)} ;; {is<Request>($1)} ;; {$1}
each @tx_drop_counter = (@tx_drop_counter + 1) ;; {$0.is_valid} ;; !{$2} ;; {is<Transaction>($1)} ;; {$1} ;; !{$0.pending_cost < @max_pending_cost_value}
each %uniform_real_distribution<double>(@rand_engine) ;; {$0.is_valid} ;; !{$2} ;; {is<Transaction>($1)} ;; {$1} ;; {$0.pending_cost < @max_pending_cost_value}
each @tx_drop_counter = (@tx_drop_counter + 1) ;; {$0.is_valid} ;; !{$2} ;; {is<Transaction>($1)} ;; {$1} ;; {$0.pending_cost < @max_pending_cost_value} ;; {(@tx_upload_credits / @tx_upload_bandwidth) < apply(%uniform_real_distribution<double>, @rand_engine)}
each insert($0.pending_map, $1.content_hash, to_value($1.static_cost, @params)) ;; {$0.is_valid} ;; !{$2} ;; {is<Transaction>($1)} ;; {$1} ;; {$0.pending_cost < @max_pending_cost_value} ;; !{(@tx_upload_credits / @tx_upload_bandwidth) < apply(%uniform_real_distribution<double>, @rand_engine)}
each $0.pending_cost = ($0.pending_cost + to_value($1.static_cost, @params)) ;; {$0.is_valid} ;; !{$2} ;; {is<Transaction>($1)} ;; {$1} ;; {$0.pending_cost < @max_pending_cost_value} ;; !{(@tx_upload_credits / @tx_upload_bandwidth) < apply(%uniform_real_distribution<double>, @rand_engine)} ;; {inserted($0.pending_map, $1.content_hash)}
each @tx_upload_credits = max((-to_value($1.static_cost, @params) + @tx_upload_credits), 0) ;; {$0.is_valid} ;; !{$2} ;; {is<Transaction>($1)} ;; {$1} ;; {$0.pending_cost < @max_pending_cost_value} ;; !{(@tx_upload_credits / @tx_upload_bandwidth) < apply(%uniform_real_distribution<double>, @rand_engine)}
each @tx_upload_sum = (@tx_upload_sum + to_value($1.static_cost, @params)) ;; {$0.is_valid} ;; !{$2} ;; {is<Transaction>($1)} ;; {$1} ;; {$0.pending_cost < @max_pending_cost_value} ;; !{(@tx_upload_credits / @tx_upload_bandwidth) < apply(%uniform_real_distribution<double>, @rand_engine)}
each send_to($0, $1) ;; {$0.is_valid}
false !{$0.is_valid} | {$0.is_blocked} | {$1} | {$0.pending_cost < @max_pending_cost_value} | !{send_to($0, $1)}
false !{$0.is_valid} | !{$2} | !{send_to($0, $1)}
never throw …
exit !{$0.is_valid} | !{$2} | {did send_to($0, $1)}
exit !{$0.is_valid} | {$0.is_blocked} | {$1} | {did send_to($0, $1)}
exit !{$0.is_valid} | {$0.is_blocked} | {did send_to($0, $1)} | {is<Transaction>($1)}
exit !{$0.is_valid} | !{$0.pending_cost < @max_pending_cost_value} | {$0.is_blocked} | {(@tx_upload_credits / @tx_upload_bandwidth) < apply(%uniform_real_distribution<double>, @rand_engine)} | {did send_to($0, $1)}
true {$0.is_valid}
true !{$0.is_blocked} | {$0.write_queue_size < @priority_queue_size} | {$2}
true !{$0.is_blocked} | {…} | {$2}
true !{$1} | !{is<Transaction>($1)} | {$0.pending_cost < @max_pending_cost_value} | {$2}
true !{$0.pending_cost < @max_pending_cost_value} | !{$1} | !{(@tx_upload_credits / @tx_upload_bandwidth) < apply(%uniform_real_distribution<double>, @rand_engine)} | !{is<Transaction>($1)} | {$2}
true {send_to($0, $1)}
at @block_drop_counter = (@block_drop_counter + 1) ;; {$0.is_valid} ;; !{$2} ;; {$0.is_blocked} ;; {VNX_TYPE_ID == get_type_hash($1)} ;; !{$0.write_queue_size < @priority_queue_size}
at @tx_drop_counter = (@tx_drop_counter + 1) ;; {$0.is_valid} ;; !{$2}
at @vdf_drop_counter = (@vdf_drop_counter + 1) ;; {$0.is_valid} ;; !{$2} ;; {$0.is_blocked} ;; {VNX_TYPE_ID == get_type_hash($1)} ;; !{$0.write_queue_size < @priority_queue_size}
at @proof_drop_counter = (@proof_drop_counter + 1) ;; {$0.is_valid} ;; !{$2} ;; {$0.is_blocked} ;; {VNX_TYPE_ID == get_type_hash($1)} ;; !{$0.write_queue_size < @priority_queue_size}
at %shared_ptr<Return>.id = $1.id ;; {$0.is_valid} ;; !{$2} ;; {$0.is_blocked} ;; !{VNX_TYPE_ID == get_type_hash($1)} ;; {is<Request>($1)} ;; {$1}
at %shared_ptr<Return>.result = create() ;; {$0.is_valid} ;; !{$2} ;; {$0.is_blocked} ;; !{VNX_TYPE_ID == get_type_hash($1)} ;; {is<Request>($1)} ;; {$1}
at add_task(bind(&on_return, this, $0.client, %shared_ptr<Return>)) ;; {$0.is_valid} ;; !{$2} ;; {$0.is_blocked} ;; !{VNX_TYPE_ID == get_type_hash($1)} ;; {is<Request>($1)} ;; {$1}
at %uniform_real_distribution<double>(@rand_engine) ;; {$0.is_valid} ;; !{$2} ;; {is<Transaction>($1)} ;; {$1} ;; {$0.pending_cost < @max_pending_cost_value} ;; !{$0.is_blocked} | {$0.write_queue_size < @priority_queue_size}
at insert($0.pending_map, $1.content_hash, to_value($1.static_cost, @params)) ;; {$0.is_valid} ;; !{$2} ;; {is<Transaction>($1)} ;; {$1} ;; {$0.pending_cost < @max_pending_cost_value} ;; !{(@tx_upload_credits / @tx_upload_bandwidth) < apply(%uniform_real_distribution<double>, @rand_engine)} ;; !{$0.is_blocked} | {$0.write_queue_size < @priority_queue_size}
at $0.pending_cost = ($0.pending_cost + to_value($1.static_cost, @params)) ;; {$0.is_valid} ;; !{$2} ;; {is<Transaction>($1)} ;; {$1} ;; {$0.pending_cost < @max_pending_cost_value} ;; !{(@tx_upload_credits / @tx_upload_bandwidth) < apply(%uniform_real_distribution<double>, @rand_engine)} ;; {inserted($0.pending_map, $1.content_hash)} ;; !{$0.is_blocked} | {$0.write_queue_size < @priority_queue_size}
at @tx_upload_credits = max((-to_value($1.static_cost, @params) + @tx_upload_credits), 0) ;; {$0.is_valid} ;; !{$2} ;; {is<Transaction>($1)} ;; {$1} ;; {$0.pending_cost < @max_pending_cost_value} ;; !{(@tx_upload_credits / @tx_upload_bandwidth) < apply(%uniform_real_distribution<double>, @rand_engine)} ;; !{$0.is_blocked} | {$0.write_queue_size < @priority_queue_size}
at @tx_upload_sum = (@tx_upload_sum + to_value($1.static_cost, @params)) ;; {$0.is_valid} ;; !{$2} ;; {is<Transaction>($1)} ;; {$1} ;; {$0.pending_cost < @max_pending_cost_value} ;; !{(@tx_upload_credits / @tx_upload_bandwidth) < apply(%uniform_real_distribution<double>, @rand_engine)} ;; !{$0.is_blocked} | {$0.write_queue_size < @priority_queue_size}
at send_to($0, $1) ;; {$0.is_valid} ;; !{$0.is_blocked} | {$0.write_queue_size < @priority_queue_size} | {$2} ;; !{$1} | !{(@tx_upload_credits / @tx_upload_bandwidth) < apply(%uniform_real_distribution<double>, @rand_engine)} | !{is<Transaction>($1)} | {$2} ;; !{$1} | !{is<Transaction>($1)} | {$0.pending_cost < @max_pending_cost_value} | {$2}
fn mmx::Router::sign_msg
never throw …
exit {ret = pair(@node_key, sign(@node_skey, $0))}
