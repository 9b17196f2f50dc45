tus src/Router.cpp
fn mmx::Router::ban_peer
each erase(@block_peers, begin(@block_peers)) ;; {999999 < size(@block_peers)}
each insert(@block_peers, find_peer($0).address) ;; {find_peer($0)}
each disconnect($0) ;; {find_peer($0)}
never throw …
exit !{999999 < size(@block_peers)} | {did erase(@block_peers, begin(@block_peers))}
exit !{find_peer($0)} | {did disconnect($0)}
exit !{find_peer($0)} | {did insert(@block_peers, find_peer($0).address)}
at erase(@block_peers, begin(@block_peers)) ;; {999999 < size(@block_peers)}
at insert(@block_peers, find_peer($0).address) ;; {find_peer($0)}
at disconnect($0) ;; {find_peer($0)}
fn mmx::Router::connect
each resolve(elem(@fixed_peers))
each connect_to(elem(@fixed_peers)) ;; !{has(@peer_addr_map, resolve(elem(@fixed_peers)))}
each insert(%set<shared_ptr<Router::peer_t>>, elem(@peer_map).second) ;; {elem(@peer_map).second.is_outbound} ;; !{has(@fixed_peers, elem(@peer_map).second.host_name)} ;; {elem(@peer_map).second.is_synced}
each insert(%set<shared_ptr<Router::peer_t>>, elem(@peer_map).second) ;; {elem(@peer_map).second.is_outbound} ;; !{has(@fixed_peers, elem(@peer_map).second.host_name)} ;; !{elem(@peer_map).second.is_synced} ;; {@connection_timeout_ms < (-elem(@peer_map).second.connected_since_ms + get_time_ms())}
each insert(@peer_set, elem(@peer_retry_map).first)
each insert(@peer_set, begin(@seed_peers), end(@seed_peers))
each resolve(elem(@peer_set))
each at(@peer_retry_map, resolve(elem(@peer_set))) = ((get_time_ms() / 1000) + (rand64() % (60 * @peer_retry_interval))) ;; {is_valid_address(resolve(elem(@peer_set)))} ;; !{size(%set<shared_ptr<Router::peer_t>>) < @num_peers_out} ;; !{has(@peer_retry_map, resolve(elem(@peer_set)))}
each insert(%set<string,less<string>,allocator<string>>, resolve(elem(@peer_set))) ;; {is_valid_address(resolve(elem(@peer_set)))} ;; !{has(@peer_addr_map, resolve(elem(@peer_set)))} ;; !{has(@connect_tasks, elem(@peer_set))} ;; !{has(@block_peers, resolve(elem(@peer_set)))} ;; !{has(@block_peers, elem(@peer_set))} ;; !{has(@self_addrs, resolve(elem(@peer_set)))} ;; !{has(@self_addrs, elem(@peer_set))}
each get_subset(%set<string,less<string>,allocator<string>>, @num_peers_out, @rand_engine)
each connect_to(elem(get_subset(%set<string,less<string>,allocator<string>>, @num_peers_out, @rand_engine))) ;; {size(@connect_tasks) < (2 * @num_peers_out)}
each erase(@peer_retry_map, elem(get_subset(%set<string,less<string>,allocator<string>>, @num_peers_out, @rand_engine))) ;; {size(@connect_tasks) < (2 * @num_peers_out)}
each get_subset(%set<shared_ptr<Router::peer_t>>, ite({(@num_peers_out + 1) < size(%set<shared_ptr<Router::peer_t>>)}, (-@num_peers_out + size(%set<shared_ptr<Router::peer_t>>)), 0), @rand_engine)
each disconnect(elem(get_subset(%set<shared_ptr<Router::peer_t>>, ite({(@num_peers_out + 1) < size(%set<shared_ptr<Router::peer_t>>)}, (-@num_peers_out + size(%set<shared_ptr<Router::peer_t>>)), 0), @rand_engine)).client)
each get_subset(%set<shared_ptr<Router::peer_t>>, ite({@num_peers_out < size(%set<shared_ptr<Router::peer_t>>)}, (-@num_peers_out + size(%set<shared_ptr<Router::peer_t>>)), 0), @rand_engine)
each disconnect(elem(get_subset(%set<shared_ptr<Router::peer_t>>, ite({@num_peers_out < size(%set<shared_ptr<Router::peer_t>>)}, (-@num_peers_out + size(%set<shared_ptr<Router::peer_t>>)), 0), @rand_engine)).client)
never break(@fixed_peers)
never break(@peer_map)
never break(@peer_retry_map)
never break(@peer_set)
never break(get_subset(%set<shared_ptr<Router::peer_t>>, ite({(@num_peers_out + 1) < size(%set<shared_ptr<Router::peer_t>>)}, (-@num_peers_out + size(%set<shared_ptr<Router::peer_t>>)), 0), @rand_engine))
never break(get_subset(%set<shared_ptr<Router::peer_t>>, ite({@num_peers_out < size(%set<shared_ptr<Router::peer_t>>)}, (-@num_peers_out + size(%set<shared_ptr<Router::peer_t>>)), 0), @rand_engine))
never throw …
exit {did disconnect(elem(get_subset(%set<shared_ptr<Router::peer_t>>, ite({@num_peers_out < size(%set<shared_ptr<Router::peer_t>>)}, (-@num_peers_out + size(%set<shared_ptr<Router::peer_t>>)), 0), @rand_engine)).client)}
exit {did disconnect(elem(get_subset(%set<shared_ptr<Router::peer_t>>, ite({(@num_peers_out + 1) < size(%set<shared_ptr<Router::peer_t>>)}, (-@num_peers_out + size(%set<shared_ptr<Router::peer_t>>)), 0), @rand_engine)).client)}
exit {did get_subset(%set<shared_ptr<Router::peer_t>>, ite({@num_peers_out < size(%set<shared_ptr<Router::peer_t>>)}, (-@num_peers_out + size(%set<shared_ptr<Router::peer_t>>)), 0), @rand_engine)}
exit {did get_subset(%set<shared_ptr<Router::peer_t>>, ite({(@num_peers_out + 1) < size(%set<shared_ptr<Router::peer_t>>)}, (-@num_peers_out + size(%set<shared_ptr<Router::peer_t>>)), 0), @rand_engine)}
exit {did get_subset(%set<string,less<string>,allocator<string>>, @num_peers_out, @rand_engine)}
exit {did insert(@peer_set, begin(@seed_peers), end(@seed_peers))}
exit {did insert(@peer_set, elem(@peer_retry_map).first)}
exit {did resolve(elem(@fixed_peers))}
exit {did resolve(elem(@peer_set))}
exit !{size(@connect_tasks) < (2 * @num_peers_out)} | {did connect_to(elem(get_subset(%set<string,less<string>,allocator<string>>, @num_peers_out, @rand_engine)))}
exit !{size(@connect_tasks) < (2 * @num_peers_out)} | {did erase(@peer_retry_map, elem(get_subset(%set<string,less<string>,allocator<string>>, @num_peers_out, @rand_engine)))}
exit {did break(get_subset(%set<string,less<string>,allocator<string>>, @num_peers_out, @rand_engine))} | {size(@connect_tasks) < (2 * @num_peers_out)}
exit {did connect_to(elem(@fixed_peers))} | {has(@peer_addr_map, resolve(elem(@fixed_peers)))}
exit !{elem(@peer_map).second.is_outbound} | !{elem(@peer_map).second.is_synced} | {did insert(%set<shared_ptr<Router::peer_t>>, elem(@peer_map).second)} | {has(@fixed_peers, elem(@peer_map).second.host_name)}
exit !{is_valid_address(resolve(elem(@peer_set)))} | {did at(@peer_retry_map, resolve(elem(@peer_set))) = ((get_time_ms() / 1000) + (rand64() % (60 * @peer_retry_interval)))} | {has(@peer_retry_map, resolve(elem(@peer_set)))} | {size(%set<shared_ptr<Router::peer_t>>) < @num_peers_out}
exit !{@connection_timeout_ms < (-elem(@peer_map).second.connected_since_ms + get_time_ms())} | !{elem(@peer_map).second.is_outbound} | {did insert(%set<shared_ptr<Router::peer_t>>, elem(@peer_map).second)} | {elem(@peer_map).second.is_synced} | {has(@fixed_peers, elem(@peer_map).second.host_name)}
at resolve(elem(@fixed_peers))
at connect_to(elem(@fixed_peers)) ;; !{has(@peer_addr_map, resolve(elem(@fixed_peers)))}
at insert(%set<shared_ptr<Router::peer_t>>, elem(@peer_map).second) ;; {elem(@peer_map).second.is_outbound} ;; !{has(@fixed_peers, elem(@peer_map).second.host_name)}
at insert(@peer_set, elem(@peer_retry_map).first)
at insert(@peer_set, begin(@seed_peers), end(@seed_peers))
at resolve(elem(@peer_set))
at at(@peer_retry_map, resolve(elem(@peer_set))) = ((get_time_ms() / 1000) + (rand64() % (60 * @peer_retry_interval))) ;; {is_valid_address(resolve(elem(@peer_set)))} ;; !{size(%set<shared_ptr<Router::peer_t>>) < @num_peers_out} ;; !{has(@peer_retry_map, resolve(elem(@peer_set)))}
at insert(%set<string,less<string>,allocator<string>>, resolve(elem(@peer_set))) ;; {is_valid_address(resolve(elem(@peer_set)))} ;; !{has(@peer_addr_map, resolve(elem(@peer_set)))} ;; !{has(@connect_tasks, elem(@peer_set))} ;; !{has(@block_peers, resolve(elem(@peer_set)))} ;; !{has(@block_peers, elem(@peer_set))} ;; !{has(@self_addrs, resolve(elem(@peer_set)))} ;; !{has(@self_addrs, elem(@peer_set))} ;; !{(get_time_ms() / 1000) < at(@peer_retry_map, resolve(elem(@peer_set)))} | {size(%set<shared_ptr<Router::peer_t>>) < @num_peers_out} ;; {has(@peer_retry_map, resolve(elem(@peer_set)))} | {size(%set<shared_ptr<Router::peer_t>>) < @num_peers_out}
at get_subset(%set<string,less<string>,allocator<string>>, @num_peers_out, @rand_engine)
never break(get_subset(%set<string,less<string>,allocator<string>>, @num_peers_out, @rand_engine)) ;; !{size(@connect_tasks) < (2 * @num_peers_out)}
at connect_to(elem(get_subset(%set<string,less<string>,allocator<string>>, @num_peers_out, @rand_engine))) ;; {size(@connect_tasks) < (2 * @num_peers_out)}
at erase(@peer_retry_map, elem(get_subset(%set<string,less<string>,allocator<string>>, @num_peers_out, @rand_engine))) ;; {size(@connect_tasks) < (2 * @num_peers_out)}
at get_subset(%set<shared_ptr<Router::peer_t>>, ite({(@num_peers_out + 1) < size(%set<shared_ptr<Router::peer_t>>)}, (-@num_peers_out + size(%set<shared_ptr<Router::peer_t>>)), 0), @rand_engine)
at disconnect(elem(get_subset(%set<shared_ptr<Router::peer_t>>, ite({(@num_peers_out + 1) < size(%set<shared_ptr<Router::peer_t>>)}, (-@num_peers_out + size(%set<shared_ptr<Router::peer_t>>)), 0), @rand_engine)).client)
at get_subset(%set<shared_ptr<Router::peer_t>>, ite({@num_peers_out < size(%set<shared_ptr<Router::peer_t>>)}, (-@num_peers_out + size(%set<shared_ptr<Router::peer_t>>)), 0), @rand_engine)
at disconnect(elem(get_subset(%set<shared_ptr<Router::peer_t>>, ite({@num_peers_out < size(%set<shared_ptr<Router::peer_t>>)}, (-@num_peers_out + size(%set<shared_ptr<Router::peer_t>>)), 0), @rand_engine)).client)
fn mmx::Router::connect_to
each at(@host_map, $0) = resolve_host($0) ;; !{has(@connect_tasks, $0)}
each %TcpEndpoint.host_name = $0 ;; !{has(@connect_tasks, $0)}
each %TcpEndpoint.port = @params.port ;; !{has(@connect_tasks, $0)}
each connect_client(%TcpEndpoint) ;; !{has(@connect_tasks, $0)}
each at(@connect_tasks, $0) = connect_client(%TcpEndpoint) ;; !{has(@connect_tasks, $0)}
never throw …
at at(@host_map, $0) = resolve_host($0) ;; !{has(@connect_tasks, $0)}
at %TcpEndpoint.host_name = $0 ;; !{has(@connect_tasks, $0)}
at %TcpEndpoint.port = @params.port ;; !{has(@connect_tasks, $0)}
at connect_client(%TcpEndpoint) ;; !{has(@connect_tasks, $0)}
at at(@connect_tasks, $0) = connect_client(%TcpEndpoint) ;; !{has(@connect_tasks, $0)}
fn mmx::Router::discover
each @next_request_id = (@next_request_id + 1) ;; {size(@peer_set) < @max_peer_set}
each %shared_ptr<Request>.id = @next_request_id ;; {size(@peer_set) < @max_peer_set}
each %shared_ptr<Request>.method = create() ;; {size(@peer_set) < @max_peer_set}
each send_all(%shared_ptr<Request>, ctor(set<node_type_e>, node_type_e::FULL_NODE, ctor(less<node_type_e>)), false) ;; {size(@peer_set) < @max_peer_set}
each get_synced_height(@node, lambda, 0)
each %shared_ptr<Node_get_block_hash>.height = ($cb0 + -(2 * @params.commit_delay)) ;; {$cb0}
each get_block_hash(@node, ($cb0 + -(2 * @params.commit_delay)), lambda, 0) ;; {$cb0}
each @next_request_id = (@next_request_id + 1) ;; {$cb0}
each %shared_ptr<Request>.id = @next_request_id ;; {$cb0}
each %shared_ptr<Request>.method = %shared_ptr<Node_get_block_hash> ;; {$cb0}
each send_all(%shared_ptr<Request>, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), false) ;; {$cb0}
each @peer_check.height = ($cb0 + -(2 * @params.commit_delay)) ;; {$cb0}
each @peer_check.our_hash = $cb0 ;; {$cb0}
each @peer_check.request_id = @next_request_id ;; {$cb0}
never throw …
exit {did get_synced_height(@node, lambda, 0)}
exit !{size(@peer_set) < @max_peer_set} | {did %shared_ptr<Request>.id = @next_request_id}
exit !{size(@peer_set) < @max_peer_set} | {did %shared_ptr<Request>.method = create()}
exit !{size(@peer_set) < @max_peer_set} | {did @next_request_id = (@next_request_id + 1)}
exit !{size(@peer_set) < @max_peer_set} | {did send_all(%shared_ptr<Request>, ctor(set<node_type_e>, node_type_e::FULL_NODE, ctor(less<node_type_e>)), false)}
at @next_request_id = (@next_request_id + 1)
at %shared_ptr<Request>.id = @next_request_id
at %shared_ptr<Request>.method = create() ;; {size(@peer_set) < @max_peer_set}
at send_all(%shared_ptr<Request>, ctor(set<node_type_e>, node_type_e::FULL_NODE, ctor(less<node_type_e>)), false) ;; {size(@peer_set) < @max_peer_set}
at get_synced_height(@node, lambda, 0)
at %shared_ptr<Node_get_block_hash>.height = ($cb0 + -(2 * @params.commit_delay)) ;; {$cb0}
at get_block_hash(@node, ($cb0 + -(2 * @params.commit_delay)), lambda, 0) ;; {$cb0}
at %shared_ptr<Request>.method = %shared_ptr<Node_get_block_hash> ;; {$cb0} ;; {$cb0}
at send_all(%shared_ptr<Request>, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), false) ;; {$cb0} ;; {$cb0}
at @peer_check.height = ($cb0 + -(2 * @params.commit_delay)) ;; {$cb0} ;; {$cb0}
at @peer_check.our_hash = $cb0 ;; {$cb0} ;; {$cb0}
at @peer_check.request_id = @next_request_id ;; {$cb0} ;; {$cb0}
fn mmx::Router::fetch_block_async
each %shared_ptr<Router::fetch_job_t>.hash = $0
each %shared_ptr<Router::fetch_job_t>.from_peer = $1
each %shared_ptr<Router::fetch_job_t>.callback = bind(&fetch_block_async_return, this, $2, std::placeholders::_1)
each %shared_ptr<Router::fetch_job_t>.start_time_ms = get_time_ms()
each at(@fetch_jobs, $2) = %shared_ptr<Router::fetch_job_t>
each process(0)
never throw …
exit {did %shared_ptr<Router::fetch_job_t>.callback = bind(&fetch_block_async_return, this, $2, std::placeholders::_1)}
exit {did %shared_ptr<Router::fetch_job_t>.from_peer = $1}
exit {did %shared_ptr<Router::fetch_job_t>.hash = $0}
exit {did %shared_ptr<Router::fetch_job_t>.start_time_ms = get_time_ms()}
exit {did at(@fetch_jobs, $2) = %shared_ptr<Router::fetch_job_t>}
exit {did process(0)}
at %shared_ptr<Router::fetch_job_t>.hash = $0
at %shared_ptr<Router::fetch_job_t>.from_peer = $1
at %shared_ptr<Router::fetch_job_t>.callback = bind(&fetch_block_async_return, this, $2, std::placeholders::_1)
at %shared_ptr<Router::fetch_job_t>.start_time_ms = get_time_ms()
at at(@fetch_jobs, $2) = %shared_ptr<Router::fetch_job_t>
at process(0)
fn mmx::Router::fetch_block_at_async
each %shared_ptr<Router::fetch_job_t>.height = $0
each %shared_ptr<Router::fetch_job_t>.from_peer = $1
each %shared_ptr<Router::fetch_job_t>.callback = bind(&fetch_block_at_async_return, this, $2, std::placeholders::_1)
each %shared_ptr<Router::fetch_job_t>.start_time_ms = get_time_ms()
each at(@fetch_jobs, $2) = %shared_ptr<Router::fetch_job_t>
each process(0)
never throw …
exit {did %shared_ptr<Router::fetch_job_t>.callback = bind(&fetch_block_at_async_return, this, $2, std::placeholders::_1)}
exit {did %shared_ptr<Router::fetch_job_t>.from_peer = $1}
exit {did %shared_ptr<Router::fetch_job_t>.height = $0}
exit {did %shared_ptr<Router::fetch_job_t>.start_time_ms = get_time_ms()}
exit {did at(@fetch_jobs, $2) = %shared_ptr<Router::fetch_job_t>}
exit {did process(0)}
at %shared_ptr<Router::fetch_job_t>.height = $0
at %shared_ptr<Router::fetch_job_t>.from_peer = $1
at %shared_ptr<Router::fetch_job_t>.callback = bind(&fetch_block_at_async_return, this, $2, std::placeholders::_1)
at %shared_ptr<Router::fetch_job_t>.start_time_ms = get_time_ms()
at at(@fetch_jobs, $2) = %shared_ptr<Router::fetch_job_t>
at process(0)
fn mmx::Router::find_peer
never throw …
exit !{has(@peer_map, $0)} | {ret = at(@peer_map, $0)}
exit {has(@peer_map, $0)} | {ret = 0}
fn mmx::Router::find_peers
never break(loop)
each push_back(%vector<shared_ptr<Router::peer_t>>, fold(equal_range(@peer_addr_map, $0).first, (~ + 1)).second) ;; !{equal_range(@peer_addr_map, $0).second == fold(equal_range(@peer_addr_map, $0).first, (~ + 1))}
never throw …
value fold(equal_range(@peer_addr_map, $0).first, (~ + 1))
exit {did push_back(%vector<shared_ptr<Router::peer_t>>, fold(equal_range(@peer_addr_map, $0).first, (~ + 1)).second)}
exit {equal_range(@peer_addr_map, $0).second == fold(equal_range(@peer_addr_map, $0).first, (~ + 1))}
exit {ret = %vector<shared_ptr<Router::peer_t>>}
at push_back(%vector<shared_ptr<Router::peer_t>>, fold(equal_range(@peer_addr_map, $0).first, (~ + 1)).second) ;; !{equal_range(@peer_addr_map, $0).second == fold(equal_range(@peer_addr_map, $0).first, (~ + 1))}
fn mmx::Router::get_blocks_at_async
each %shared_ptr<Router::sync_job_t>.height = $0
each %shared_ptr<Router::sync_job_t>.start_time_ms = get_time_ms()
each at(@sync_jobs, $1) = %shared_ptr<Router::sync_job_t>
each process(0)
never throw …
exit {did %shared_ptr<Router::sync_job_t>.height = $0}
exit {did %shared_ptr<Router::sync_job_t>.start_time_ms = get_time_ms()}
exit {did at(@sync_jobs, $1) = %shared_ptr<Router::sync_job_t>}
exit {did process(0)}
at %shared_ptr<Router::sync_job_t>.height = $0
at %shared_ptr<Router::sync_job_t>.start_time_ms = get_time_ms()
at at(@sync_jobs, $1) = %shared_ptr<Router::sync_job_t>
at process(0)
fn mmx::Router::get_connected_peers
never break(@peer_map)
each push_back(%vector<string,allocator<string>>, elem(@peer_map).second.address)
never throw …
exit {did push_back(%vector<string,allocator<string>>, elem(@peer_map).second.address)}
exit {ret = %vector<string,allocator<string>>}
at push_back(%vector<string,allocator<string>>, elem(@peer_map).second.address)
fn mmx::Router::get_id
never throw …
exit {ret = @node_id}
fn mmx::Router::get_known_peers
never throw …
exit {ret = ctor(vector<string,allocator<string>>, begin(@peer_set), end(@peer_set))}
fn mmx::Router::get_peer
raise !{find_peer($0)}
exit {find_peer($0)}
exit {ret = find_peer($0)}
fn mmx::Router::get_peer_base
never throw …
exit {ret = get_peer($0)}
fn mmx::Router::get_peers
each insert(get_known_peers(), end(get_known_peers()), begin(get_connected_peers()), end(get_connected_peers()))
each insert(%set<string,less<string>,allocator<string>>, elem(get_known_peers())) ;; {is_public_address(elem(get_known_peers()))}
each get_subset(%set<string,less<string>,allocator<string>>, $0, @rand_engine)
never break(get_known_peers())
never throw …
exit {did get_subset(%set<string,less<string>,allocator<string>>, $0, @rand_engine)}
exit {did insert(get_known_peers(), end(get_known_peers()), begin(get_connected_peers()), end(get_connected_peers()))}
exit {ret = get_subset(%set<string,less<string>,allocator<string>>, $0, @rand_engine)}
exit !{is_public_address(elem(get_known_peers()))} | {did insert(%set<string,less<string>,allocator<string>>, elem(get_known_peers()))}
at insert(get_known_peers(), end(get_known_peers()), begin(get_connected_peers()), end(get_connected_peers()))
at insert(%set<string,less<string>,allocator<string>>, elem(get_known_peers())) ;; {is_public_address(elem(get_known_peers()))}
at get_subset(%set<string,less<string>,allocator<string>>, $0, @rand_engine)
fn mmx::Router::kick_peer
each ban_peer(elem(find_peers($0)).client, "kicked manually")
never break(find_peers($0))
never throw …
exit {did ban_peer(elem(find_peers($0)).client, "kicked manually")}
at ban_peer(elem(find_peers($0)).client, "kicked manually")
fn mmx::Router::main
each @min_sync_peers = min(@min_sync_peers, @num_peers_out) ;; {@num_peers_out} ;; {@min_sync_peers}
each insert(@fixed_peers, begin(@master_nodes), end(@master_nodes)) ;; {@num_peers_out} ;; {@min_sync_peers}
each @tx_upload_bandwidth = ((@max_tx_upload * to_value(@params.max_block_size, @params)) / get_block_time(@params)) ;; {@num_peers_out} ;; {@min_sync_peers}
each @max_pending_cost_value = (@max_pending_cost * to_value(@params.max_block_size, @params)) ;; {@num_peers_out} ;; {@min_sync_peers}
each subscribe(@input_verified_vdfs, @max_queue_ms, 0) ;; {@num_peers_out} ;; {@min_sync_peers}
each subscribe(@input_verified_votes, @max_queue_ms, 0) ;; {@num_peers_out} ;; {@min_sync_peers}
each subscribe(@input_verified_proof, @max_queue_ms, 0) ;; {@num_peers_out} ;; {@min_sync_peers}
each subscribe(@input_verified_blocks, @max_queue_ms, 0) ;; {@num_peers_out} ;; {@min_sync_peers}
each subscribe(@input_verified_transactions, @max_queue_ms, 0) ;; {@num_peers_out} ;; {@min_sync_peers}
each subscribe(@input_transactions, @max_queue_ms, 0) ;; {@num_peers_out} ;; {@min_sync_peers}
each subscribe(@input_vdf_points, @max_queue_ms, 0) ;; {@num_peers_out} ;; {@min_sync_peers}
each subscribe(@input_vdfs, @max_queue_ms, 0) ;; {@num_peers_out} ;; {@min_sync_peers}
each @node_skey = ctor(skey_t, random()) ;; {@num_peers_out} ;; {@min_sync_peers}
each @node_key = ctor(skey_t, random()) ;; {@num_peers_out} ;; {@min_sync_peers}
each @node_id = get_addr(ctor(skey_t, random())) ;; {@num_peers_out} ;; {@min_sync_peers}
each open(%File, "rb") ;; {@num_peers_out} ;; {@min_sync_peers} ;; {exists(%File)}
each read_generic(%File.in, %vector<string,allocator<string>>, 0, 0) ;; {@num_peers_out} ;; {@min_sync_peers} ;; {exists(%File)}
each close(%File) ;; {@num_peers_out} ;; {@min_sync_peers} ;; {exists(%File)}
each insert(@peer_set, begin(%vector<string,allocator<string>>), end(%vector<string,allocator<string>>)) ;; {@num_peers_out} ;; {@min_sync_peers} ;; {exists(%File)}
each @node = new(NodeAsyncClient, @node_server) ;; {@num_peers_out} ;; {@min_sync_peers}
each vnx_set_non_blocking(new(NodeAsyncClient, @node_server), true) ;; {@num_peers_out} ;; {@min_sync_peers}
each add_async_client(new(NodeAsyncClient, @node_server)) ;; {@num_peers_out} ;; {@min_sync_peers}
each @http = new(addons::HttpInterface<Router>, this, @vnx_name) ;; {@num_peers_out} ;; {@min_sync_peers}
each add_async_client(new(addons::HttpInterface<Router>, this, @vnx_name)) ;; {@num_peers_out} ;; {@min_sync_peers}
each @upnp_mapper = upnp_start_mapping(@port, "MMX Node") ;; {@num_peers_out} ;; {@min_sync_peers} ;; {@open_port}
each set_timer_millis(@send_interval_ms, bind(&send, this)) ;; {@num_peers_out} ;; {@min_sync_peers}
each set_timer_millis(@query_interval_ms, bind(&query, this)) ;; {@num_peers_out} ;; {@min_sync_peers}
each set_timer_millis(@update_interval_ms, bind(&update, this)) ;; {@num_peers_out} ;; {@min_sync_peers}
each set_timer_millis(@connect_interval_ms, bind(&connect, this)) ;; {@num_peers_out} ;; {@min_sync_peers}
each set_timer_millis((1000 * @discover_interval), bind(&discover, this)) ;; {@num_peers_out} ;; {@min_sync_peers}
each set_timer_millis(300000, bind(&save_data, this)) ;; {@num_peers_out} ;; {@min_sync_peers}
each connect() ;; {@num_peers_out} ;; {@min_sync_peers}
each main() ;; {@num_peers_out} ;; {@min_sync_peers}
each save_data() ;; {@num_peers_out} ;; {@min_sync_peers}
each stop(@upnp_mapper) ;; {@num_peers_out} ;; {@min_sync_peers} ;; {@upnp_mapper}
at ctor:File((@storage_path ++ "known_peers.dat"))
raise !{@num_peers_out}
raise {@num_peers_out} ;; !{@min_sync_peers}
raise {@num_peers_out} ;; {@min_sync_peers} ;; {-1 < @max_connections} ;; {@max_connections < @num_peers_out}
raise {@num_peers_out} ;; {@min_sync_peers} ;; {-1 < @max_connections} ;; !{@max_connections < @num_peers_out} ;; {@max_connections < min(@min_sync_peers, @num_peers_out)}
exit {@min_sync_peers}
exit {@num_peers_out}
exit {did @http = new(addons::HttpInterface<Router>, this, @vnx_name)}
exit {did @max_pending_cost_value = (@max_pending_cost * to_value(@params.max_block_size, @params))}
exit {did @min_sync_peers = min(@min_sync_peers, @num_peers_out)}
exit {did @node = new(NodeAsyncClient, @node_server)}
exit {did @node_id = get_addr(ctor(skey_t, random()))}
exit {did @node_key = ctor(skey_t, random())}
exit {did @node_skey = ctor(skey_t, random())}
exit {did @tx_upload_bandwidth = ((@max_tx_upload * to_value(@params.max_block_size, @params)) / get_block_time(@params))}
exit {did add_async_client(new(NodeAsyncClient, @node_server))}
exit {did add_async_client(new(addons::HttpInterface<Router>, this, @vnx_name))}
exit {did connect()}
exit {did insert(@fixed_peers, begin(@master_nodes), end(@master_nodes))}
exit {did main()}
exit {did save_data()}
exit {did set_timer_millis((1000 * @discover_interval), bind(&discover, this))}
exit {did set_timer_millis(300000, bind(&save_data, this))}
exit {did set_timer_millis(@connect_interval_ms, bind(&connect, this))}
exit {did set_timer_millis(@query_interval_ms, bind(&query, this))}
exit {did set_timer_millis(@send_interval_ms, bind(&send, this))}
exit {did set_timer_millis(@update_interval_ms, bind(&update, this))}
exit {did subscribe(@input_transactions, @max_queue_ms, 0)}
exit {did subscribe(@input_vdf_points, @max_queue_ms, 0)}
exit {did subscribe(@input_vdfs, @max_queue_ms, 0)}
exit {did subscribe(@input_verified_blocks, @max_queue_ms, 0)}
exit {did subscribe(@input_verified_proof, @max_queue_ms, 0)}
exit {did subscribe(@input_verified_transactions, @max_queue_ms, 0)}
exit {did subscribe(@input_verified_vdfs, @max_queue_ms, 0)}
exit {did subscribe(@input_verified_votes, @max_queue_ms, 0)}
exit {did vnx_set_non_blocking(new(NodeAsyncClient, @node_server), true)}
exit !{-1 < @max_connections} | !{@max_connections < @num_peers_out}
exit !{-1 < @max_connections} | !{@max_connections < min(@min_sync_peers, @num_peers_out)}
exit !{@open_port} | {did @upnp_mapper = upnp_start_mapping(@port, "MMX Node")}
exit !{@upnp_mapper} | {did stop(@upnp_mapper)}
exit !{exists(%File)} | {did insert(@peer_set, begin(%vector<string,allocator<string>>), end(%vector<string,allocator<string>>))}
at @min_sync_peers = min(@min_sync_peers, @num_peers_out)
at insert(@fixed_peers, begin(@master_nodes), end(@master_nodes))
at @tx_upload_bandwidth = ((@max_tx_upload * to_value(@params.max_block_size, @params)) / get_block_time(@params))
at @max_pending_cost_value = (@max_pending_cost * to_value(@params.max_block_size, @params))
at subscribe(@input_verified_vdfs, @max_queue_ms, 0)
at subscribe(@input_verified_votes, @max_queue_ms, 0)
at subscribe(@input_verified_proof, @max_queue_ms, 0)
at subscribe(@input_verified_blocks, @max_queue_ms, 0)
at subscribe(@input_verified_transactions, @max_queue_ms, 0)
at subscribe(@input_transactions, @max_queue_ms, 0)
at subscribe(@input_vdf_points, @max_queue_ms, 0)
at subscribe(@input_vdfs, @max_queue_ms, 0)
at @node_skey = ctor(skey_t, random())
at @node_key = ctor(skey_t, random())
at @node_id = get_addr(ctor(skey_t, random()))
at open(%File, "rb") ;; {exists(%File)}
at read_generic(%File.in, %vector<string,allocator<string>>, 0, 0) ;; {exists(%File)}
at close(%File) ;; {exists(%File)}
at insert(@peer_set, begin(%vector<string,allocator<string>>), end(%vector<string,allocator<string>>)) ;; {exists(%File)}
at @node = new(NodeAsyncClient, @node_server)
at vnx_set_non_blocking(new(NodeAsyncClient, @node_server), true)
at add_async_client(new(NodeAsyncClient, @node_server))
at @http = new(addons::HttpInterface<Router>, this, @vnx_name)
at add_async_client(new(addons::HttpInterface<Router>, this, @vnx_name))
at @upnp_mapper = upnp_start_mapping(@port, "MMX Node") ;; {@open_port}
at set_timer_millis(@send_interval_ms, bind(&send, this))
at set_timer_millis(@query_interval_ms, bind(&query, this))
at set_timer_millis(@update_interval_ms, bind(&update, this))
at set_timer_millis(@connect_interval_ms, bind(&connect, this))
at set_timer_millis((1000 * @discover_interval), bind(&discover, this))
at set_timer_millis(300000, bind(&save_data, this))
at connect()
at main()
at save_data()
at stop(@upnp_mapper) ;; {@upnp_mapper}
fn mmx::Router::on_connect
each resolve($1)
each disconnect($0) ;; {has(@block_peers, resolve($1))}
each %shared_ptr<Router::peer_t>.client = $0 ;; !{has(@block_peers, resolve($1))}
each %shared_ptr<Router::peer_t>.address = resolve($1) ;; !{has(@block_peers, resolve($1))}
each %shared_ptr<Router::peer_t>.host_name = $1 ;; !{has(@block_peers, resolve($1))}
each %shared_ptr<Router::peer_t>.challenge = random() ;; !{has(@block_peers, resolve($1))}
each %shared_ptr<Router::peer_t>.info.type = node_type_e::FULL_NODE ;; !{has(@block_peers, resolve($1))}
each %shared_ptr<Router::peer_t>.connected_since_ms = get_time_ms() ;; !{has(@block_peers, resolve($1))}
each %shared_ptr<Router::peer_t>.is_outbound = true ;; !{has(@block_peers, resolve($1))} ;; {has(@connect_tasks, $1)} ;; {$0 == at(@connect_tasks, $1)}
each insert(@peer_set, resolve($1)) ;; !{has(@block_peers, resolve($1))} ;; {has(@connect_tasks, $1)} ;; {$0 == at(@connect_tasks, $1)}
each erase(@connect_tasks, find(@connect_tasks, $1)) ;; !{has(@block_peers, resolve($1))} ;; {has(@connect_tasks, $1)} ;; {$0 == at(@connect_tasks, $1)}
each at(@peer_map, $0) = %shared_ptr<Router::peer_t> ;; !{has(@block_peers, resolve($1))}
each insert(@peer_addr_map, resolve($1), %shared_ptr<Router::peer_t>) ;; !{has(@block_peers, resolve($1))}
each send_request(%shared_ptr<Router::peer_t>, create(), true) ;; !{has(@block_peers, resolve($1))}
each send_request(%shared_ptr<Router::peer_t>, create(), true) ;; !{has(@block_peers, resolve($1))} ;; {size(@peer_set) < @max_peer_set}
each send_to(%shared_ptr<Router::peer_t>, elem(@vdf_history).second, true) ;; !{has(@block_peers, resolve($1))}
never break(@vdf_history)
never throw …
exit {did resolve($1)}
exit !{has(@block_peers, resolve($1))} | {did disconnect($0)}
exit {did %shared_ptr<Router::peer_t>.address = resolve($1)} | {has(@block_peers, resolve($1))}
exit {did %shared_ptr<Router::peer_t>.challenge = random()} | {has(@block_peers, resolve($1))}
exit {did %shared_ptr<Router::peer_t>.client = $0} | {has(@block_peers, resolve($1))}
exit {did %shared_ptr<Router::peer_t>.connected_since_ms = get_time_ms()} | {has(@block_peers, resolve($1))}
exit {did %shared_ptr<Router::peer_t>.host_name = $1} | {has(@block_peers, resolve($1))}
exit {did %shared_ptr<Router::peer_t>.info.type = node_type_e::FULL_NODE} | {has(@block_peers, resolve($1))}
exit {did at(@peer_map, $0) = %shared_ptr<Router::peer_t>} | {has(@block_peers, resolve($1))}
exit {did insert(@peer_addr_map, resolve($1), %shared_ptr<Router::peer_t>)} | {has(@block_peers, resolve($1))}
exit {did send_request(%shared_ptr<Router::peer_t>, create(), true)} | {has(@block_peers, resolve($1))}
exit {did send_to(%shared_ptr<Router::peer_t>, elem(@vdf_history).second, true)} | {has(@block_peers, resolve($1))}
exit !{$0 == at(@connect_tasks, $1)} | !{has(@connect_tasks, $1)} | {did %shared_ptr<Router::peer_t>.is_outbound = true} | {has(@block_peers, resolve($1))}
exit !{$0 == at(@connect_tasks, $1)} | !{has(@connect_tasks, $1)} | {did erase(@connect_tasks, find(@connect_tasks, $1))} | {has(@block_peers, resolve($1))}
exit !{$0 == at(@connect_tasks, $1)} | !{has(@connect_tasks, $1)} | {did insert(@peer_set, resolve($1))} | {has(@block_peers, resolve($1))}
at resolve($1)
at disconnect($0) ;; {has(@block_peers, resolve($1))}
at %shared_ptr<Router::peer_t>.client = $0 ;; !{has(@block_peers, resolve($1))}
at %shared_ptr<Router::peer_t>.address = resolve($1) ;; !{has(@block_peers, resolve($1))}
at %shared_ptr<Router::peer_t>.host_name = $1 ;; !{has(@block_peers, resolve($1))}
at %shared_ptr<Router::peer_t>.challenge = random() ;; !{has(@block_peers, resolve($1))}
at %shared_ptr<Router::peer_t>.info.type = node_type_e::FULL_NODE ;; !{has(@block_peers, resolve($1))}
at %shared_ptr<Router::peer_t>.connected_since_ms = get_time_ms() ;; !{has(@block_peers, resolve($1))}
at %shared_ptr<Router::peer_t>.is_outbound = true ;; !{has(@block_peers, resolve($1))} ;; {has(@connect_tasks, $1)} ;; {$0 == at(@connect_tasks, $1)}
at insert(@peer_set, resolve($1)) ;; !{has(@block_peers, resolve($1))} ;; {has(@connect_tasks, $1)} ;; {$0 == at(@connect_tasks, $1)}
at erase(@connect_tasks, find(@connect_tasks, $1)) ;; !{has(@block_peers, resolve($1))} ;; {has(@connect_tasks, $1)} ;; {$0 == at(@connect_tasks, $1)}
at at(@peer_map, $0) = %shared_ptr<Router::peer_t> ;; !{has(@block_peers, resolve($1))}
at insert(@peer_addr_map, resolve($1), %shared_ptr<Router::peer_t>) ;; !{has(@block_peers, resolve($1))}
at send_request(%shared_ptr<Router::peer_t>, create(), true) ;; !{has(@block_peers, resolve($1))}
at send_to(%shared_ptr<Router::peer_t>, elem(@vdf_history).second, true) ;; !{has(@block_peers, resolve($1))}
fn mmx::Router::on_disconnect
each find_peer($0).is_valid = false ;; {find_peer($0)}
each add_task(lambda)
each equal_range(@peer_addr_map, find_peer($0).address) ;; {find_peer($0)}
each erase(@peer_addr_map, fold(equal_range(@peer_addr_map, find_peer($0).address).first, (~ + 1))) ;; {find_peer($0)} ;; !{equal_range(@peer_addr_map, find_peer($0).address).second == fold(equal_range(@peer_addr_map, find_peer($0).address).first, (~ + 1))} ;; {find_peer($0) == fold(equal_range(@peer_addr_map, find_peer($0).address).first, (~ + 1)).second}
each resolve($1)
each erase(@peer_set, $1) ;; {has(@connect_tasks, $1)} ;; {$0 == at(@connect_tasks, $1)}
each erase(@peer_set, resolve($1)) ;; {has(@connect_tasks, $1)} ;; {$0 == at(@connect_tasks, $1)}
each erase(@connect_tasks, find(@connect_tasks, $1)) ;; {has(@connect_tasks, $1)} ;; {$0 == at(@connect_tasks, $1)}
each erase(@peer_map, $0)
each erase(@synced_peers, $0)
each at(@peer_retry_map, resolve($1)) = ((60 * @peer_retry_interval) + get_time_sec())
never throw …
value fold(equal_range(@peer_addr_map, find_peer($0).address).first, (~ + 1))
exit {did add_task(lambda)}
exit {did at(@peer_retry_map, resolve($1)) = ((60 * @peer_retry_interval) + get_time_sec())}
exit {did erase(@peer_map, $0)}
exit {did erase(@synced_peers, $0)}
exit {did resolve($1)}
exit !{find_peer($0)} | {did equal_range(@peer_addr_map, find_peer($0).address)}
exit !{find_peer($0)} | {did find_peer($0).is_valid = false}
exit !{$0 == at(@connect_tasks, $1)} | !{has(@connect_tasks, $1)} | {did erase(@connect_tasks, find(@connect_tasks, $1))}
exit !{$0 == at(@connect_tasks, $1)} | !{has(@connect_tasks, $1)} | {did erase(@peer_set, $1)}
exit !{$0 == at(@connect_tasks, $1)} | !{has(@connect_tasks, $1)} | {did erase(@peer_set, resolve($1))}
exit !{equal_range(@peer_addr_map, find_peer($0).address).second == fold(equal_range(@peer_addr_map, find_peer($0).address).first, (~ + 1))} | !{find_peer($0) == fold(equal_range(@peer_addr_map, find_peer($0).address).first, (~ + 1)).second} | !{find_peer($0)}
exit !{find_peer($0)} | {equal_range(@peer_addr_map, find_peer($0).address).second == fold(equal_range(@peer_addr_map, find_peer($0).address).first, (~ + 1))} | {find_peer($0) == fold(equal_range(@peer_addr_map, find_peer($0).address).first, (~ + 1)).second}
exit !{find_peer($0) == fold(equal_range(@peer_addr_map, find_peer($0).address).first, (~ + 1)).second} | !{find_peer($0)} | {did break(loop)} | {equal_range(@peer_addr_map, find_peer($0).address).second == fold(equal_range(@peer_addr_map, find_peer($0).address).first, (~ + 1))}
exit !{find_peer($0) == fold(equal_range(@peer_addr_map, find_peer($0).address).first, (~ + 1)).second} | !{find_peer($0)} | {did erase(@peer_addr_map, fold(equal_range(@peer_addr_map, find_peer($0).address).first, (~ + 1)))} | {equal_range(@peer_addr_map, find_peer($0).address).second == fold(equal_range(@peer_addr_map, find_peer($0).address).first, (~ + 1))}
at find_peer($0).is_valid = false ;; {find_peer($0)}
at add_task(lambda)
at equal_range(@peer_addr_map, find_peer($0).address) ;; {find_peer($0)}
at erase(@peer_addr_map, fold(equal_range(@peer_addr_map, find_peer($0).address).first, (~ + 1))) ;; {find_peer($0)} ;; !{equal_range(@peer_addr_map, find_peer($0).address).second == fold(equal_range(@peer_addr_map, find_peer($0).address).first, (~ + 1))} ;; {find_peer($0) == fold(equal_range(@peer_addr_map, find_peer($0).address).first, (~ + 1)).second}
never break(loop) ;; {find_peer($0)} ;; !{equal_range(@peer_addr_map, find_peer($0).address).second == fold(equal_range(@peer_addr_map, find_peer($0).address).first, (~ + 1))} ;; {find_peer($0) == fold(equal_range(@peer_addr_map, find_peer($0).address).first, (~ + 1)).second}
at resolve($1)
at erase(@peer_set, $1) ;; {has(@connect_tasks, $1)} ;; {$0 == at(@connect_tasks, $1)}
at erase(@peer_set, resolve($1)) ;; {has(@connect_tasks, $1)} ;; {$0 == at(@connect_tasks, $1)}
at erase(@connect_tasks, find(@connect_tasks, $1)) ;; {has(@connect_tasks, $1)} ;; {$0 == at(@connect_tasks, $1)}
at erase(@peer_map, $0)
at erase(@synced_peers, $0)
at at(@peer_retry_map, resolve($1)) = ((60 * @peer_retry_interval) + get_time_sec())
fn mmx::Router::process
never break(loop)
at erase(elem(@sync_jobs).second.pending_blocks, at(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))).second) ;; !{end(elem(@sync_jobs).second.pending) == fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))} ;; !{has(@synced_peers, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))} ;; {has(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))}
at erase(elem(@sync_jobs).second.got_hash, find(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))) ;; !{end(elem(@sync_jobs).second.pending) == fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))} ;; !{has(@synced_peers, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))} ;; {has(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))}
at erase(elem(@sync_jobs).second.pending, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))) ;; !{end(elem(@sync_jobs).second.pending) == fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))} ;; !{has(@synced_peers, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))}
never to_value(fold(0, max(elem(elem(@sync_jobs).second.blocks).second.static_cost, ~), elem(@sync_jobs).second.blocks), @params) ;; !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers}
at erase(elem(@fetch_jobs).second.pending, fold(begin(elem(@fetch_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@fetch_jobs).second.pending, ~)))) ;; !{elem(@fetch_jobs).second.is_done} ;; !{end(elem(@fetch_jobs).second.pending) == fold(begin(elem(@fetch_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@fetch_jobs).second.pending, ~)))} ;; !{has(@synced_peers, fold(begin(elem(@fetch_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@fetch_jobs).second.pending, ~))))}
each insert(elem(@sync_jobs).second.succeeded, at(elem(@sync_jobs).second.request_map, $0.id)) ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)} ;; {is<Node_get_block_hash_ex_return>($0.result)} ;; {$0.result} ;; {$0.result._ret_0} ;; {has(elem(@sync_jobs).second.blocks, $0.result._ret_0.second)}
each at(elem(@sync_jobs).second.got_hash, at(elem(@sync_jobs).second.request_map, $0.id)) = $0.result._ret_0 ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)} ;; {is<Node_get_block_hash_ex_return>($0.result)} ;; {$0.result} ;; {$0.result._ret_0}
each insert(elem(@sync_jobs).second.failed, at(elem(@sync_jobs).second.request_map, $0.id)) ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)} ;; {is<Node_get_block_hash_ex_return>($0.result)} ;; {$0.result} ;; !{$0.result._ret_0}
each insert(elem(@sync_jobs).second.succeeded, elem(elem(@sync_jobs).second.got_hash).first) ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)} ;; !{$0.result} | !{is<Node_get_block_hash_ex_return>($0.result)} ;; {is<Node_get_block_return>($0.result)} ;; {$0.result} ;; {$0.result._ret_0} ;; {is_valid($0.result._ret_0, @params)} ;; {$0.result._ret_0.content_hash == elem(elem(@sync_jobs).second.got_hash).second.second}
each insert(elem(@sync_jobs).second.succeeded, at(elem(@sync_jobs).second.request_map, $0.id)) ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)} ;; !{$0.result} | !{is<Node_get_block_hash_ex_return>($0.result)} ;; {is<Node_get_block_return>($0.result)} ;; {$0.result} ;; {$0.result._ret_0} ;; {is_valid($0.result._ret_0, @params)}
each at(elem(@sync_jobs).second.blocks, $0.result._ret_0.content_hash) = $0.result._ret_0 ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)} ;; !{$0.result} | !{is<Node_get_block_hash_ex_return>($0.result)} ;; {is<Node_get_block_return>($0.result)} ;; {$0.result} ;; {$0.result._ret_0} ;; {is_valid($0.result._ret_0, @params)}
each erase(elem(@sync_jobs).second.pending_blocks, $0.result._ret_0.content_hash) ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)} ;; !{$0.result} | !{is<Node_get_block_hash_ex_return>($0.result)} ;; {is<Node_get_block_return>($0.result)} ;; {$0.result} ;; {$0.result._ret_0}
each insert(elem(@sync_jobs).second.failed, at(elem(@sync_jobs).second.request_map, $0.id)) ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)} ;; !{$0.result} | !{is<Node_get_block_hash_ex_return>($0.result)} ;; {is<Node_get_block_return>($0.result)} ;; {$0.result} ;; !{has(elem(@sync_jobs).second.succeeded, at(elem(@sync_jobs).second.request_map, $0.id))}
each erase(elem(@sync_jobs).second.pending_blocks, at(elem(@sync_jobs).second.got_hash, at(elem(@sync_jobs).second.request_map, $0.id)).second) ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)} ;; !{$0.result} | !{is<Node_get_block_hash_ex_return>($0.result)} ;; !{$0.result} | !{is<Node_get_block_return>($0.result)} ;; {is<Exception>($0.result)} ;; {$0.result} ;; {has(elem(@sync_jobs).second.got_hash, at(elem(@sync_jobs).second.request_map, $0.id))}
each erase(elem(@sync_jobs).second.pending, at(elem(@sync_jobs).second.request_map, $0.id)) ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)}
each erase(elem(@sync_jobs).second.request_map, find(elem(@sync_jobs).second.request_map, $0.id)) ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)}
each elem(@sync_jobs).second.last_recv_ms = get_time_ms() ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)}
each erase(elem(@sync_jobs).second.pending_blocks, at(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))).second) ;; !{end(elem(@sync_jobs).second.pending) == fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))} ;; !{has(@synced_peers, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))} ;; {has(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))}
each erase(elem(@sync_jobs).second.got_hash, find(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))) ;; !{end(elem(@sync_jobs).second.pending) == fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))} ;; !{has(@synced_peers, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))} ;; {has(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))}
each erase(elem(@sync_jobs).second.pending, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))) ;; !{end(elem(@sync_jobs).second.pending) == fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))} ;; !{has(@synced_peers, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))}
each insert(%set<unsignedlong>, elem(@synced_peers)) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; {(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)} ;; !{has(elem(@sync_jobs).second.failed, elem(@synced_peers))} ;; !{has(elem(@sync_jobs).second.pending, elem(@synced_peers))} ;; !{has(elem(@sync_jobs).second.succeeded, elem(@synced_peers))} ;; !{has(elem(@sync_jobs).second.got_hash, elem(@synced_peers))}
each get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; {(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)}
each %shared_ptr<Node_get_block_hash_ex>.height = elem(@sync_jobs).second.height ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; {(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)}
each send_request(elem(get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine)), %shared_ptr<Node_get_block_hash_ex>, true) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; {(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)}
each at(elem(@sync_jobs).second.request_map, send_request(elem(get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine)), %shared_ptr<Node_get_block_hash_ex>, true)) = elem(get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine)) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; {(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)}
each insert(elem(@sync_jobs).second.pending, elem(get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine))) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; {(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)}
each insert(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, elem(elem(@sync_jobs).second.got_hash).first, elem(elem(@sync_jobs).second.got_hash).second) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; !{has(elem(@sync_jobs).second.blocks, elem(elem(@sync_jobs).second.got_hash).second.second)} ;; !{has(elem(@sync_jobs).second.failed, elem(elem(@sync_jobs).second.got_hash).first)} ;; !{has(elem(@sync_jobs).second.pending, elem(elem(@sync_jobs).second.got_hash).first)} ;; !{has(elem(@sync_jobs).second.succeeded, elem(elem(@sync_jobs).second.got_hash).first)}
each get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers}
each %shared_ptr<Node_get_block>.hash = elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.first ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; !{has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)} | {at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()}
each send_request(elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first, %shared_ptr<Node_get_block>, true) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; !{has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)} | {at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()}
each at(elem(@sync_jobs).second.request_map, send_request(elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first, %shared_ptr<Node_get_block>, true)) = elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; !{has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)} | {at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()}
each insert(elem(@sync_jobs).second.pending, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; !{has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)} | {at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()}
each at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) = ((@fetch_timeout_ms / 8) + get_time_ms()) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; !{has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)} | {at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()}
each elem(@sync_jobs).second.num_fetch = (elem(@sync_jobs).second.num_fetch + 1) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; !{has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)} | {at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()}
each push_back(%vector<shared_ptr<Block>>, elem(elem(@sync_jobs).second.blocks).second) ;; !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers}
each elem(@sync_jobs).second.is_done = true ;; !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers}
each get_blocks_at_async_return(elem(@sync_jobs).first, %vector<shared_ptr<Block>>) ;; !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers}
each erase(@sync_jobs, fold(begin(@sync_jobs), ite({~.second.is_done}, erase(@sync_jobs, ~), (~ + 1)))) ;; !{end(@sync_jobs) == fold(begin(@sync_jobs), ite({~.second.is_done}, erase(@sync_jobs, ~), (~ + 1)))} ;; {fold(begin(@sync_jobs), ite({~.second.is_done}, erase(@sync_jobs, ~), (~ + 1))).second.is_done}
each elem(@fetch_jobs).second.is_done = true ;; {$0} ;; {has(elem(@fetch_jobs).second.request_map, $0.id)} ;; {is<Node_get_block_at_return>($0.result)} ;; {$0.result} ;; {elem(@fetch_jobs).second.height}
each elem(@fetch_jobs).second.callback($0.result._ret_0) ;; {$0} ;; {has(elem(@fetch_jobs).second.request_map, $0.id)} ;; {is<Node_get_block_at_return>($0.result)} ;; {$0.result} ;; {elem(@fetch_jobs).second.height}
each elem(@fetch_jobs).second.is_done = true ;; {$0} ;; {has(elem(@fetch_jobs).second.request_map, $0.id)} ;; !{$0.result} | !{is<Node_get_block_at_return>($0.result)} ;; {is<Node_get_block_return>($0.result)} ;; {$0.result} ;; {elem(@fetch_jobs).second.hash} ;; {$0.result._ret_0} | {elem(@fetch_jobs).second.from_peer}
each elem(@fetch_jobs).second.callback($0.result._ret_0) ;; {$0} ;; {has(elem(@fetch_jobs).second.request_map, $0.id)} ;; !{$0.result} | !{is<Node_get_block_at_return>($0.result)} ;; {is<Node_get_block_return>($0.result)} ;; {$0.result} ;; {elem(@fetch_jobs).second.hash} ;; {$0.result._ret_0} | {elem(@fetch_jobs).second.from_peer}
each insert(elem(@fetch_jobs).second.failed, at(elem(@fetch_jobs).second.request_map, $0.id)) ;; {$0} ;; {has(elem(@fetch_jobs).second.request_map, $0.id)} ;; !{$0.result} | !{is<Node_get_block_at_return>($0.result)} ;; {is<Node_get_block_return>($0.result)} ;; {$0.result} ;; {elem(@fetch_jobs).second.hash} ;; !{$0.result._ret_0} ;; !{elem(@fetch_jobs).second.from_peer}
each elem(@fetch_jobs).second.is_done = true ;; {$0} ;; {has(elem(@fetch_jobs).second.request_map, $0.id)} ;; !{$0.result} | !{is<Node_get_block_at_return>($0.result)} ;; !{$0.result} | !{is<Node_get_block_return>($0.result)} ;; {elem(@fetch_jobs).second.from_peer}
each vnx_async_return_ex_what(elem(@fetch_jobs).first, "request failed") ;; {$0} ;; {has(elem(@fetch_jobs).second.request_map, $0.id)} ;; !{$0.result} | !{is<Node_get_block_at_return>($0.result)} ;; !{$0.result} | !{is<Node_get_block_return>($0.result)} ;; {elem(@fetch_jobs).second.from_peer}
each insert(elem(@fetch_jobs).second.failed, at(elem(@fetch_jobs).second.request_map, $0.id)) ;; {$0} ;; {has(elem(@fetch_jobs).second.request_map, $0.id)} ;; !{$0.result} | !{is<Node_get_block_at_return>($0.result)} ;; !{$0.result} | !{is<Node_get_block_return>($0.result)} ;; !{elem(@fetch_jobs).second.from_peer}
each erase(elem(@fetch_jobs).second.pending, at(elem(@fetch_jobs).second.request_map, $0.id)) ;; {$0} ;; {has(elem(@fetch_jobs).second.request_map, $0.id)}
each erase(elem(@fetch_jobs).second.request_map, find(elem(@fetch_jobs).second.request_map, $0.id)) ;; {$0} ;; {has(elem(@fetch_jobs).second.request_map, $0.id)}
each elem(@fetch_jobs).second.last_recv_ms = get_time_ms() ;; {$0} ;; {has(elem(@fetch_jobs).second.request_map, $0.id)}
each erase(elem(@fetch_jobs).second.pending, fold(begin(elem(@fetch_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@fetch_jobs).second.pending, ~)))) ;; !{elem(@fetch_jobs).second.is_done} ;; !{end(elem(@fetch_jobs).second.pending) == fold(begin(elem(@fetch_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@fetch_jobs).second.pending, ~)))} ;; !{has(@synced_peers, fold(begin(elem(@fetch_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@fetch_jobs).second.pending, ~))))}
each elem(@fetch_jobs).second.is_done = true ;; !{elem(@fetch_jobs).second.is_done} ;; {elem(@fetch_jobs).second.from_peer} ;; {empty(elem(@fetch_jobs).second.request_map)} ;; !{at(find_peers(elem(@fetch_jobs).second.from_peer), 0)} | {empty(find_peers(elem(@fetch_jobs).second.from_peer))}
each vnx_async_return_ex_what(elem(@fetch_jobs).first, "no such peer") ;; !{elem(@fetch_jobs).second.is_done} ;; {elem(@fetch_jobs).second.from_peer} ;; {empty(elem(@fetch_jobs).second.request_map)} ;; !{at(find_peers(elem(@fetch_jobs).second.from_peer), 0)} | {empty(find_peers(elem(@fetch_jobs).second.from_peer))}
each %shared_ptr<Node_get_block>.hash = elem(@fetch_jobs).second.hash ;; !{elem(@fetch_jobs).second.is_done} ;; {elem(@fetch_jobs).second.from_peer} ;; {empty(elem(@fetch_jobs).second.request_map)} ;; !{empty(find_peers(elem(@fetch_jobs).second.from_peer))} ;; {at(find_peers(elem(@fetch_jobs).second.from_peer), 0)} ;; {elem(@fetch_jobs).second.hash}
each send_request(at(find_peers(elem(@fetch_jobs).second.from_peer), 0), %shared_ptr<Node_get_block>, true) ;; !{elem(@fetch_jobs).second.is_done} ;; {elem(@fetch_jobs).second.from_peer} ;; {empty(elem(@fetch_jobs).second.request_map)} ;; !{empty(find_peers(elem(@fetch_jobs).second.from_peer))} ;; {at(find_peers(elem(@fetch_jobs).second.from_peer), 0)} ;; {elem(@fetch_jobs).second.hash}
each at(elem(@fetch_jobs).second.request_map, send_request(at(find_peers(elem(@fetch_jobs).second.from_peer), 0), %shared_ptr<Node_get_block>, true)) = at(find_peers(elem(@fetch_jobs).second.from_peer), 0).client ;; !{elem(@fetch_jobs).second.is_done} ;; {elem(@fetch_jobs).second.from_peer} ;; {empty(elem(@fetch_jobs).second.request_map)} ;; !{empty(find_peers(elem(@fetch_jobs).second.from_peer))} ;; {at(find_peers(elem(@fetch_jobs).second.from_peer), 0)} ;; {elem(@fetch_jobs).second.hash}
each %shared_ptr<Node_get_block_at>.height = elem(@fetch_jobs).second.height ;; !{elem(@fetch_jobs).second.is_done} ;; {elem(@fetch_jobs).second.from_peer} ;; {empty(elem(@fetch_jobs).second.request_map)} ;; !{empty(find_peers(elem(@fetch_jobs).second.from_peer))} ;; {at(find_peers(elem(@fetch_jobs).second.from_peer), 0)} ;; {elem(@fetch_jobs).second.height}
each send_request(at(find_peers(elem(@fetch_jobs).second.from_peer), 0), %shared_ptr<Node_get_block_at>, true) ;; !{elem(@fetch_jobs).second.is_done} ;; {elem(@fetch_jobs).second.from_peer} ;; {empty(elem(@fetch_jobs).second.request_map)} ;; !{empty(find_peers(elem(@fetch_jobs).second.from_peer))} ;; {at(find_peers(elem(@fetch_jobs).second.from_peer), 0)} ;; {elem(@fetch_jobs).second.height}
each at(elem(@fetch_jobs).second.request_map, send_request(at(find_peers(elem(@fetch_jobs).second.from_peer), 0), %shared_ptr<Node_get_block_at>, true)) = at(find_peers(elem(@fetch_jobs).second.from_peer), 0).client ;; !{elem(@fetch_jobs).second.is_done} ;; {elem(@fetch_jobs).second.from_peer} ;; {empty(elem(@fetch_jobs).second.request_map)} ;; !{empty(find_peers(elem(@fetch_jobs).second.from_peer))} ;; {at(find_peers(elem(@fetch_jobs).second.from_peer), 0)} ;; {elem(@fetch_jobs).second.height}
each erase(@synced_peers, elem(elem(@fetch_jobs).second.failed)) ;; !{elem(@fetch_jobs).second.is_done} ;; !{elem(@fetch_jobs).second.from_peer} ;; {elem(@fetch_jobs).second.hash}
each erase(@synced_peers, elem(elem(@fetch_jobs).second.pending)) ;; !{elem(@fetch_jobs).second.is_done} ;; !{elem(@fetch_jobs).second.from_peer} ;; {elem(@fetch_jobs).second.hash}
each elem(@fetch_jobs).second.is_done = true ;; !{elem(@fetch_jobs).second.is_done} ;; !{elem(@fetch_jobs).second.from_peer} ;; {elem(@fetch_jobs).second.hash} ;; {empty(@synced_peers)} ;; {empty(elem(@fetch_jobs).second.pending)}
each elem(@fetch_jobs).second.callback(0) ;; !{elem(@fetch_jobs).second.is_done} ;; !{elem(@fetch_jobs).second.from_peer} ;; {elem(@fetch_jobs).second.hash} ;; {empty(@synced_peers)} ;; {empty(elem(@fetch_jobs).second.pending)}
each get_subset(@synced_peers, (-size(elem(@fetch_jobs).second.pending) + @min_sync_peers), @rand_engine) ;; !{elem(@fetch_jobs).second.is_done} ;; !{elem(@fetch_jobs).second.from_peer} ;; {elem(@fetch_jobs).second.hash} ;; !{empty(@synced_peers)} | !{empty(elem(@fetch_jobs).second.pending)} ;; {size(elem(@fetch_jobs).second.pending) < @min_sync_peers}
each %shared_ptr<Node_get_block>.hash = elem(@fetch_jobs).second.hash ;; !{elem(@fetch_jobs).second.is_done} ;; !{elem(@fetch_jobs).second.from_peer} ;; {elem(@fetch_jobs).second.hash} ;; !{empty(@synced_peers)} | !{empty(elem(@fetch_jobs).second.pending)} ;; {size(elem(@fetch_jobs).second.pending) < @min_sync_peers}
each send_request(elem(get_subset(@synced_peers, (-size(elem(@fetch_jobs).second.pending) + @min_sync_peers), @rand_engine)), %shared_ptr<Node_get_block>, true) ;; !{elem(@fetch_jobs).second.is_done} ;; !{elem(@fetch_jobs).second.from_peer} ;; {elem(@fetch_jobs).second.hash} ;; !{empty(@synced_peers)} | !{empty(elem(@fetch_jobs).second.pending)} ;; {size(elem(@fetch_jobs).second.pending) < @min_sync_peers}
each at(elem(@fetch_jobs).second.request_map, send_request(elem(get_subset(@synced_peers, (-size(elem(@fetch_jobs).second.pending) + @min_sync_peers), @rand_engine)), %shared_ptr<Node_get_block>, true)) = elem(get_subset(@synced_peers, (-size(elem(@fetch_jobs).second.pending) + @min_sync_peers), @rand_engine)) ;; !{elem(@fetch_jobs).second.is_done} ;; !{elem(@fetch_jobs).second.from_peer} ;; {elem(@fetch_jobs).second.hash} ;; !{empty(@synced_peers)} | !{empty(elem(@fetch_jobs).second.pending)} ;; {size(elem(@fetch_jobs).second.pending) < @min_sync_peers}
each insert(elem(@fetch_jobs).second.pending, elem(get_subset(@synced_peers, (-size(elem(@fetch_jobs).second.pending) + @min_sync_peers), @rand_engine))) ;; !{elem(@fetch_jobs).second.is_done} ;; !{elem(@fetch_jobs).second.from_peer} ;; {elem(@fetch_jobs).second.hash} ;; !{empty(@synced_peers)} | !{empty(elem(@fetch_jobs).second.pending)} ;; {size(elem(@fetch_jobs).second.pending) < @min_sync_peers}
each elem(@fetch_jobs).second.is_done = true ;; !{elem(@fetch_jobs).second.is_done} ;; !{elem(@fetch_jobs).second.from_peer} ;; !{elem(@fetch_jobs).second.hash}
each vnx_async_return_ex_what(elem(@fetch_jobs).first, "invalid request") ;; !{elem(@fetch_jobs).second.is_done} ;; !{elem(@fetch_jobs).second.from_peer} ;; !{elem(@fetch_jobs).second.hash}
each erase(@fetch_jobs, fold(begin(@fetch_jobs), ite({~.second.is_done}, erase(@fetch_jobs, ~), (~ + 1)))) ;; !{end(@fetch_jobs) == fold(begin(@fetch_jobs), ite({~.second.is_done}, erase(@fetch_jobs, ~), (~ + 1)))} ;; {fold(begin(@fetch_jobs), ite({~.second.is_done}, erase(@fetch_jobs, ~), (~ + 1))).second.is_done}
never break(elem(@sync_jobs).second.got_hash)
never break(@synced_peers)
never break(get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine))
never break(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine))
never break(elem(@sync_jobs).second.blocks)
never break(@sync_jobs)
never break(elem(@fetch_jobs).second.failed)
never break(elem(@fetch_jobs).second.pending)
never break(get_subset(@synced_peers, (-size(elem(@fetch_jobs).second.pending) + @min_sync_peers), @rand_engine))
never break(@fetch_jobs)
never throw …
value fold(begin(@sync_jobs), ite({~.second.is_done}, erase(@sync_jobs, ~), (~ + 1)))
value fold(begin(@fetch_jobs), ite({~.second.is_done}, erase(@fetch_jobs, ~), (~ + 1)))
value fold(0, max(elem(elem(@sync_jobs).second.blocks).second.static_cost, ~), elem(@sync_jobs).second.blocks)
value fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))
value fold(begin(elem(@fetch_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@fetch_jobs).second.pending, ~)))
value fold(fold(false, ite((!{$0} || !{has(elem(@sync_jobs).second.request_map, $0.id)}), ~, true), @sync_jobs), ite((!{$0} || !{has(elem(@fetch_jobs).second.request_map, $0.id)}), ~, true), @fetch_jobs)
exit {end(@fetch_jobs) == fold(begin(@fetch_jobs), ite({~.second.is_done}, erase(@fetch_jobs, ~), (~ + 1)))}
exit {end(@sync_jobs) == fold(begin(@sync_jobs), ite({~.second.is_done}, erase(@sync_jobs, ~), (~ + 1)))}
exit {ret = fold(fold(false, ite((!{$0} || !{has(elem(@sync_jobs).second.request_map, $0.id)}), ~, true), @sync_jobs), ite((!{$0} || !{has(elem(@fetch_jobs).second.request_map, $0.id)}), ~, true), @fetch_jobs)}
exit !{fold(begin(@fetch_jobs), ite({~.second.is_done}, erase(@fetch_jobs, ~), (~ + 1))).second.is_done} | {did erase(@fetch_jobs, fold(begin(@fetch_jobs), ite({~.second.is_done}, erase(@fetch_jobs, ~), (~ + 1))))}
exit !{fold(begin(@sync_jobs), ite({~.second.is_done}, erase(@sync_jobs, ~), (~ + 1))).second.is_done} | {did erase(@sync_jobs, fold(begin(@sync_jobs), ite({~.second.is_done}, erase(@sync_jobs, ~), (~ + 1))))}
exit !{has(elem(@sync_jobs).second.request_map, $0.id)} | {end(elem(@sync_jobs).second.pending) == fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))}
exit {$0} | {end(elem(@sync_jobs).second.pending) == fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))}
exit !{$0} | !{has(elem(@fetch_jobs).second.request_map, $0.id)} | {did elem(@fetch_jobs).second.last_recv_ms = get_time_ms()}
exit !{$0} | !{has(elem(@fetch_jobs).second.request_map, $0.id)} | {did erase(elem(@fetch_jobs).second.pending, at(elem(@fetch_jobs).second.request_map, $0.id))}
exit !{$0} | !{has(elem(@fetch_jobs).second.request_map, $0.id)} | {did erase(elem(@fetch_jobs).second.request_map, find(elem(@fetch_jobs).second.request_map, $0.id))}
exit !{$0} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did elem(@sync_jobs).second.last_recv_ms = get_time_ms()}
exit !{$0} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did erase(elem(@sync_jobs).second.pending, at(elem(@sync_jobs).second.request_map, $0.id))}
exit !{$0} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did erase(elem(@sync_jobs).second.request_map, find(elem(@sync_jobs).second.request_map, $0.id))}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | {$0} | {did get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)}
exit !{has(elem(@fetch_jobs).second.request_map, $0.id)} | {elem(@fetch_jobs).second.is_done} | {end(elem(@fetch_jobs).second.pending) == fold(begin(elem(@fetch_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@fetch_jobs).second.pending, ~)))}
exit !{has(elem(@sync_jobs).second.request_map, $0.id)} | {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | {did elem(@sync_jobs).second.is_done = true}
exit !{has(elem(@sync_jobs).second.request_map, $0.id)} | {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | {did get_blocks_at_async_return(elem(@sync_jobs).first, %vector<shared_ptr<Block>>)}
exit !{has(elem(@sync_jobs).second.request_map, $0.id)} | {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | {did push_back(%vector<shared_ptr<Block>>, elem(elem(@sync_jobs).second.blocks).second)}
exit !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did erase(elem(@sync_jobs).second.pending, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))} | {has(@synced_peers, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))}
exit {$0} | {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | {did elem(@sync_jobs).second.is_done = true}
exit {$0} | {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | {did get_blocks_at_async_return(elem(@sync_jobs).first, %vector<shared_ptr<Block>>)}
exit {$0} | {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | {did push_back(%vector<shared_ptr<Block>>, elem(elem(@sync_jobs).second.blocks).second)}
exit {$0} | {did erase(elem(@sync_jobs).second.pending, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))} | {has(@synced_peers, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))}
exit {$0} | {elem(@fetch_jobs).second.is_done} | {end(elem(@fetch_jobs).second.pending) == fold(begin(elem(@fetch_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@fetch_jobs).second.pending, ~)))}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did %shared_ptr<Node_get_block_hash_ex>.height = elem(@sync_jobs).second.height}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did at(elem(@sync_jobs).second.request_map, send_request(elem(get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine)), %shared_ptr<Node_get_block_hash_ex>, true)) = elem(get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine))}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did insert(elem(@sync_jobs).second.pending, elem(get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine)))}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did send_request(elem(get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine)), %shared_ptr<Node_get_block_hash_ex>, true)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)} | {$0} | {did %shared_ptr<Node_get_block_hash_ex>.height = elem(@sync_jobs).second.height}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)} | {$0} | {did at(elem(@sync_jobs).second.request_map, send_request(elem(get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine)), %shared_ptr<Node_get_block_hash_ex>, true)) = elem(get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine))}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)} | {$0} | {did get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)} | {$0} | {did insert(elem(@sync_jobs).second.pending, elem(get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine)))}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)} | {$0} | {did send_request(elem(get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine)), %shared_ptr<Node_get_block_hash_ex>, true)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did %shared_ptr<Node_get_block>.hash = elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.first}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) = ((@fetch_timeout_ms / 8) + get_time_ms())}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did at(elem(@sync_jobs).second.request_map, send_request(elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first, %shared_ptr<Node_get_block>, true)) = elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did elem(@sync_jobs).second.num_fetch = (elem(@sync_jobs).second.num_fetch + 1)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did insert(elem(@sync_jobs).second.pending, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did send_request(elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first, %shared_ptr<Node_get_block>, true)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()} | {$0} | {did %shared_ptr<Node_get_block>.hash = elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.first}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()} | {$0} | {did at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) = ((@fetch_timeout_ms / 8) + get_time_ms())}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()} | {$0} | {did at(elem(@sync_jobs).second.request_map, send_request(elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first, %shared_ptr<Node_get_block>, true)) = elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()} | {$0} | {did elem(@sync_jobs).second.num_fetch = (elem(@sync_jobs).second.num_fetch + 1)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()} | {$0} | {did insert(elem(@sync_jobs).second.pending, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()} | {$0} | {did send_request(elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first, %shared_ptr<Node_get_block>, true)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did %shared_ptr<Node_get_block>.hash = elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.first} | {has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) = ((@fetch_timeout_ms / 8) + get_time_ms())} | {has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did at(elem(@sync_jobs).second.request_map, send_request(elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first, %shared_ptr<Node_get_block>, true)) = elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first} | {has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did elem(@sync_jobs).second.num_fetch = (elem(@sync_jobs).second.num_fetch + 1)} | {has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did insert(elem(@sync_jobs).second.pending, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first)} | {has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did send_request(elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first, %shared_ptr<Node_get_block>, true)} | {has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | {$0} | {did %shared_ptr<Node_get_block>.hash = elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.first} | {has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | {$0} | {did at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) = ((@fetch_timeout_ms / 8) + get_time_ms())} | {has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | {$0} | {did at(elem(@sync_jobs).second.request_map, send_request(elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first, %shared_ptr<Node_get_block>, true)) = elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first} | {has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | {$0} | {did elem(@sync_jobs).second.num_fetch = (elem(@sync_jobs).second.num_fetch + 1)} | {has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | {$0} | {did insert(elem(@sync_jobs).second.pending, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first)} | {has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)}
exit !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} | {$0} | {did send_request(elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first, %shared_ptr<Node_get_block>, true)} | {has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)}
exit !{has(elem(@fetch_jobs).second.request_map, $0.id)} | {did erase(elem(@fetch_jobs).second.pending, fold(begin(elem(@fetch_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@fetch_jobs).second.pending, ~))))} | {elem(@fetch_jobs).second.is_done} | {has(@synced_peers, fold(begin(elem(@fetch_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@fetch_jobs).second.pending, ~))))}
exit !{has(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did erase(elem(@sync_jobs).second.got_hash, find(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))))} | {has(@synced_peers, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))}
exit !{has(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))} | !{has(elem(@sync_jobs).second.request_map, $0.id)} | {did erase(elem(@sync_jobs).second.pending_blocks, at(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))).second)} | {has(@synced_peers, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))}
exit !{has(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))} | {$0} | {did erase(elem(@sync_jobs).second.got_hash, find(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))))} | {has(@synced_peers, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))}
exit !{has(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))} | {$0} | {did erase(elem(@sync_jobs).second.pending_blocks, at(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))).second)} | {has(@synced_peers, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))}
exit {$0} | {did erase(elem(@fetch_jobs).second.pending, fold(begin(elem(@fetch_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@fetch_jobs).second.pending, ~))))} | {elem(@fetch_jobs).second.is_done} | {has(@synced_peers, fold(begin(elem(@fetch_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@fetch_jobs).second.pending, ~))))}
exit !{$0} | !{elem(@fetch_jobs).second.from_peer} | !{has(elem(@fetch_jobs).second.request_map, $0.id)} | {$0.result} | {did elem(@fetch_jobs).second.is_done = true}
exit !{$0} | !{elem(@fetch_jobs).second.from_peer} | !{has(elem(@fetch_jobs).second.request_map, $0.id)} | {$0.result} | {did vnx_async_return_ex_what(elem(@fetch_jobs).first, "request failed")}
exit !{$0} | !{has(elem(@fetch_jobs).second.request_map, $0.id)} | {$0.result} | {did insert(elem(@fetch_jobs).second.failed, at(elem(@fetch_jobs).second.request_map, $0.id))} | {elem(@fetch_jobs).second.from_peer}
exit !{has(elem(@fetch_jobs).second.request_map, $0.id)} | {did elem(@fetch_jobs).second.is_done = true} | {elem(@fetch_jobs).second.from_peer} | {elem(@fetch_jobs).second.hash} | {elem(@fetch_jobs).second.is_done}
exit !{has(elem(@fetch_jobs).second.request_map, $0.id)} | {did vnx_async_return_ex_what(elem(@fetch_jobs).first, "invalid request")} | {elem(@fetch_jobs).second.from_peer} | {elem(@fetch_jobs).second.hash} | {elem(@fetch_jobs).second.is_done}
exit {$0} | {did elem(@fetch_jobs).second.is_done = true} | {elem(@fetch_jobs).second.from_peer} | {elem(@fetch_jobs).second.hash} | {elem(@fetch_jobs).second.is_done}
exit {$0} | {did vnx_async_return_ex_what(elem(@fetch_jobs).first, "invalid request")} | {elem(@fetch_jobs).second.from_peer} | {elem(@fetch_jobs).second.hash} | {elem(@fetch_jobs).second.is_done}
at insert(elem(@sync_jobs).second.succeeded, at(elem(@sync_jobs).second.request_map, $0.id)) ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)} ;; {$0.result} ;; {$0.result._ret_0}
at at(elem(@sync_jobs).second.got_hash, at(elem(@sync_jobs).second.request_map, $0.id)) = $0.result._ret_0 ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)} ;; {is<Node_get_block_hash_ex_return>($0.result)} ;; {$0.result} ;; {$0.result._ret_0}
at insert(elem(@sync_jobs).second.failed, at(elem(@sync_jobs).second.request_map, $0.id)) ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)} ;; {$0.result}
at insert(elem(@sync_jobs).second.succeeded, elem(elem(@sync_jobs).second.got_hash).first) ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)} ;; !{$0.result} | !{is<Node_get_block_hash_ex_return>($0.result)} ;; {is<Node_get_block_return>($0.result)} ;; {$0.result} ;; {$0.result._ret_0} ;; {is_valid($0.result._ret_0, @params)} ;; {$0.result._ret_0.content_hash == elem(elem(@sync_jobs).second.got_hash).second.second} ;; !{is<Node_get_block_hash_ex_return>($0.result)}
at at(elem(@sync_jobs).second.blocks, $0.result._ret_0.content_hash) = $0.result._ret_0 ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)} ;; !{$0.result} | !{is<Node_get_block_hash_ex_return>($0.result)} ;; {is<Node_get_block_return>($0.result)} ;; {$0.result} ;; {$0.result._ret_0} ;; {is_valid($0.result._ret_0, @params)} ;; !{is<Node_get_block_hash_ex_return>($0.result)}
at erase(elem(@sync_jobs).second.pending_blocks, $0.result._ret_0.content_hash) ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)} ;; !{$0.result} | !{is<Node_get_block_hash_ex_return>($0.result)} ;; {is<Node_get_block_return>($0.result)} ;; {$0.result} ;; {$0.result._ret_0} ;; !{is<Node_get_block_hash_ex_return>($0.result)}
at erase(elem(@sync_jobs).second.pending_blocks, at(elem(@sync_jobs).second.got_hash, at(elem(@sync_jobs).second.request_map, $0.id)).second) ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)} ;; !{$0.result} | !{is<Node_get_block_hash_ex_return>($0.result)} ;; !{$0.result} | !{is<Node_get_block_return>($0.result)} ;; {is<Exception>($0.result)} ;; {$0.result} ;; {has(elem(@sync_jobs).second.got_hash, at(elem(@sync_jobs).second.request_map, $0.id))} ;; !{is<Node_get_block_hash_ex_return>($0.result)} ;; !{is<Node_get_block_return>($0.result)}
at erase(elem(@sync_jobs).second.pending, at(elem(@sync_jobs).second.request_map, $0.id)) ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)}
at erase(elem(@sync_jobs).second.request_map, find(elem(@sync_jobs).second.request_map, $0.id)) ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)}
at elem(@sync_jobs).second.last_recv_ms = get_time_ms() ;; {$0} ;; {has(elem(@sync_jobs).second.request_map, $0.id)}
at erase(elem(@sync_jobs).second.pending_blocks, at(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))).second) ;; !{end(elem(@sync_jobs).second.pending) == fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))} ;; !{has(@synced_peers, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))} ;; {has(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at erase(elem(@sync_jobs).second.got_hash, find(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))) ;; !{end(elem(@sync_jobs).second.pending) == fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))} ;; !{has(@synced_peers, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))} ;; {has(elem(@sync_jobs).second.got_hash, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at erase(elem(@sync_jobs).second.pending, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))) ;; !{end(elem(@sync_jobs).second.pending) == fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~)))} ;; !{has(@synced_peers, fold(begin(elem(@sync_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@sync_jobs).second.pending, ~))))} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at insert(%set<unsignedlong>, elem(@synced_peers)) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; {(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)} ;; !{has(elem(@sync_jobs).second.failed, elem(@synced_peers))} ;; !{has(elem(@sync_jobs).second.pending, elem(@synced_peers))} ;; !{has(elem(@sync_jobs).second.succeeded, elem(@synced_peers))} ;; !{has(elem(@sync_jobs).second.got_hash, elem(@synced_peers))} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; {(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at %shared_ptr<Node_get_block_hash_ex>.height = elem(@sync_jobs).second.height ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; {(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at send_request(elem(get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine)), %shared_ptr<Node_get_block_hash_ex>, true) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; {(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at at(elem(@sync_jobs).second.request_map, send_request(elem(get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine)), %shared_ptr<Node_get_block_hash_ex>, true)) = elem(get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine)) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; {(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at insert(elem(@sync_jobs).second.pending, elem(get_subset(%set<unsignedlong>, (-size(elem(@sync_jobs).second.got_hash) + -size(elem(@sync_jobs).second.pending) + @min_sync_peers + 3), @rand_engine))) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; {(size(elem(@sync_jobs).second.got_hash) + size(elem(@sync_jobs).second.pending)) < (@min_sync_peers + 3)} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at insert(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, elem(elem(@sync_jobs).second.got_hash).first, elem(elem(@sync_jobs).second.got_hash).second) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; !{has(elem(@sync_jobs).second.blocks, elem(elem(@sync_jobs).second.got_hash).second.second)} ;; !{has(elem(@sync_jobs).second.failed, elem(elem(@sync_jobs).second.got_hash).first)} ;; !{has(elem(@sync_jobs).second.pending, elem(elem(@sync_jobs).second.got_hash).first)} ;; !{has(elem(@sync_jobs).second.succeeded, elem(elem(@sync_jobs).second.got_hash).first)} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at %shared_ptr<Node_get_block>.hash = elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.first ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; !{has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)} | {at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at send_request(elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first, %shared_ptr<Node_get_block>, true) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; !{has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)} | {at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at at(elem(@sync_jobs).second.request_map, send_request(elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first, %shared_ptr<Node_get_block>, true)) = elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; !{has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)} | {at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at insert(elem(@sync_jobs).second.pending, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).first) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; !{has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)} | {at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) = ((@fetch_timeout_ms / 8) + get_time_ms()) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; !{has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)} | {at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at elem(@sync_jobs).second.num_fetch = (elem(@sync_jobs).second.num_fetch + 1) ;; {(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; !{has(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second)} | {at(elem(@sync_jobs).second.pending_blocks, elem(get_subset(%set<pair<unsignedlong,pair<hash_t,hash_t>>>, size(%set<pair<unsignedlong,pair<hash_t,hash_t>>>), @rand_engine)).second.second) < get_time_ms()} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at push_back(%vector<shared_ptr<Block>>, elem(elem(@sync_jobs).second.blocks).second) ;; !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at elem(@sync_jobs).second.is_done = true ;; !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at get_blocks_at_async_return(elem(@sync_jobs).first, %vector<shared_ptr<Block>>) ;; !{(size(elem(@sync_jobs).second.failed) + size(elem(@sync_jobs).second.succeeded)) < @min_sync_peers} ;; !{$0} | {has(elem(@sync_jobs).second.request_map, $0.id)}
at erase(@sync_jobs, fold(begin(@sync_jobs), ite({~.second.is_done}, erase(@sync_jobs, ~), (~ + 1)))) ;; !{end(@sync_jobs) == fold(begin(@sync_jobs), ite({~.second.is_done}, erase(@sync_jobs, ~), (~ + 1)))} ;; {fold(begin(@sync_jobs), ite({~.second.is_done}, erase(@sync_jobs, ~), (~ + 1))).second.is_done}
at elem(@fetch_jobs).second.is_done = true
at elem(@fetch_jobs).second.callback($0.result._ret_0) ;; {$0} ;; {has(elem(@fetch_jobs).second.request_map, $0.id)} ;; {$0.result}
at insert(elem(@fetch_jobs).second.failed, at(elem(@fetch_jobs).second.request_map, $0.id)) ;; {$0} ;; {has(elem(@fetch_jobs).second.request_map, $0.id)} ;; !{$0.result} | !{is<Node_get_block_at_return>($0.result)} ;; !{elem(@fetch_jobs).second.from_peer}
at vnx_async_return_ex_what(elem(@fetch_jobs).first, "request failed") ;; {$0} ;; {has(elem(@fetch_jobs).second.request_map, $0.id)} ;; !{$0.result} | !{is<Node_get_block_at_return>($0.result)} ;; !{$0.result} | !{is<Node_get_block_return>($0.result)} ;; {elem(@fetch_jobs).second.from_peer}
at erase(elem(@fetch_jobs).second.pending, at(elem(@fetch_jobs).second.request_map, $0.id)) ;; {$0} ;; {has(elem(@fetch_jobs).second.request_map, $0.id)}
at erase(elem(@fetch_jobs).second.request_map, find(elem(@fetch_jobs).second.request_map, $0.id)) ;; {$0} ;; {has(elem(@fetch_jobs).second.request_map, $0.id)}
at elem(@fetch_jobs).second.last_recv_ms = get_time_ms() ;; {$0} ;; {has(elem(@fetch_jobs).second.request_map, $0.id)}
at erase(elem(@fetch_jobs).second.pending, fold(begin(elem(@fetch_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@fetch_jobs).second.pending, ~)))) ;; !{elem(@fetch_jobs).second.is_done} ;; !{end(elem(@fetch_jobs).second.pending) == fold(begin(elem(@fetch_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@fetch_jobs).second.pending, ~)))} ;; !{has(@synced_peers, fold(begin(elem(@fetch_jobs).second.pending), ite({has(@synced_peers, ~)}, (~ + 1), erase(elem(@fetch_jobs).second.pending, ~))))} ;; !{$0} | {has(elem(@fetch_jobs).second.request_map, $0.id)}
at vnx_async_return_ex_what(elem(@fetch_jobs).first, "no such peer") ;; !{elem(@fetch_jobs).second.is_done} ;; {elem(@fetch_jobs).second.from_peer} ;; {empty(elem(@fetch_jobs).second.request_map)} ;; !{at(find_peers(elem(@fetch_jobs).second.from_peer), 0)} | {empty(find_peers(elem(@fetch_jobs).second.from_peer))} ;; !{$0} | {has(elem(@fetch_jobs).second.request_map, $0.id)}
at %shared_ptr<Node_get_block>.hash = elem(@fetch_jobs).second.hash ;; !{elem(@fetch_jobs).second.is_done} ;; {elem(@fetch_jobs).second.hash} ;; !{$0} | {has(elem(@fetch_jobs).second.request_map, $0.id)}
at send_request(at(find_peers(elem(@fetch_jobs).second.from_peer), 0), %shared_ptr<Node_get_block>, true) ;; !{elem(@fetch_jobs).second.is_done} ;; {elem(@fetch_jobs).second.from_peer} ;; {empty(elem(@fetch_jobs).second.request_map)} ;; !{empty(find_peers(elem(@fetch_jobs).second.from_peer))} ;; {at(find_peers(elem(@fetch_jobs).second.from_peer), 0)} ;; {elem(@fetch_jobs).second.hash} ;; !{$0} | {has(elem(@fetch_jobs).second.request_map, $0.id)}
at at(elem(@fetch_jobs).second.request_map, send_request(at(find_peers(elem(@fetch_jobs).second.from_peer), 0), %shared_ptr<Node_get_block>, true)) = at(find_peers(elem(@fetch_jobs).second.from_peer), 0).client ;; !{elem(@fetch_jobs).second.is_done} ;; {elem(@fetch_jobs).second.from_peer} ;; {empty(elem(@fetch_jobs).second.request_map)} ;; !{empty(find_peers(elem(@fetch_jobs).second.from_peer))} ;; {at(find_peers(elem(@fetch_jobs).second.from_peer), 0)} ;; {elem(@fetch_jobs).second.hash} ;; !{$0} | {has(elem(@fetch_jobs).second.request_map, $0.id)}
at %shared_ptr<Node_get_block_at>.height = elem(@fetch_jobs).second.height ;; !{elem(@fetch_jobs).second.is_done} ;; {elem(@fetch_jobs).second.from_peer} ;; {empty(elem(@fetch_jobs).second.request_map)} ;; !{empty(find_peers(elem(@fetch_jobs).second.from_peer))} ;; {at(find_peers(elem(@fetch_jobs).second.from_peer), 0)} ;; {elem(@fetch_jobs).second.height} ;; !{$0} | {has(elem(@fetch_jobs).second.request_map, $0.id)}
at send_request(at(find_peers(elem(@fetch_jobs).second.from_peer), 0), %shared_ptr<Node_get_block_at>, true) ;; !{elem(@fetch_jobs).second.is_done} ;; {elem(@fetch_jobs).second.from_peer} ;; {empty(elem(@fetch_jobs).second.request_map)} ;; !{empty(find_peers(elem(@fetch_jobs).second.from_peer))} ;; {at(find_peers(elem(@fetch_jobs).second.from_peer), 0)} ;; {elem(@fetch_jobs).second.height} ;; !{$0} | {has(elem(@fetch_jobs).second.request_map, $0.id)}
at at(elem(@fetch_jobs).second.request_map, send_request(at(find_peers(elem(@fetch_jobs).second.from_peer), 0), %shared_ptr<Node_get_block_at>, true)) = at(find_peers(elem(@fetch_jobs).second.from_peer), 0).client ;; !{elem(@fetch_jobs).second.is_done} ;; {elem(@fetch_jobs).second.from_peer} ;; {empty(elem(@fetch_jobs).second.request_map)} ;; !{empty(find_peers(elem(@fetch_jobs).second.from_peer))} ;; {at(find_peers(elem(@fetch_jobs).second.from_peer), 0)} ;; {elem(@fetch_jobs).second.height} ;; !{$0} | {has(elem(@fetch_jobs).second.request_map, $0.id)}
at erase(@synced_peers, elem(elem(@fetch_jobs).second.failed)) ;; !{elem(@fetch_jobs).second.is_done} ;; !{elem(@fetch_jobs).second.from_peer} ;; {elem(@fetch_jobs).second.hash} ;; !{$0} | {has(elem(@fetch_jobs).second.request_map, $0.id)}
at erase(@synced_peers, elem(elem(@fetch_jobs).second.pending)) ;; !{elem(@fetch_jobs).second.is_done} ;; !{elem(@fetch_jobs).second.from_peer} ;; {elem(@fetch_jobs).second.hash} ;; !{$0} | {has(elem(@fetch_jobs).second.request_map, $0.id)}
at elem(@fetch_jobs).second.callback(0) ;; !{elem(@fetch_jobs).second.is_done} ;; !{elem(@fetch_jobs).second.from_peer} ;; {elem(@fetch_jobs).second.hash} ;; {empty(@synced_peers)} ;; {empty(elem(@fetch_jobs).second.pending)} ;; !{$0} | {has(elem(@fetch_jobs).second.request_map, $0.id)}
at get_subset(@synced_peers, (-size(elem(@fetch_jobs).second.pending) + @min_sync_peers), @rand_engine) ;; !{elem(@fetch_jobs).second.is_done} ;; !{elem(@fetch_jobs).second.from_peer} ;; {elem(@fetch_jobs).second.hash} ;; !{empty(@synced_peers)} | !{empty(elem(@fetch_jobs).second.pending)} ;; {size(elem(@fetch_jobs).second.pending) < @min_sync_peers} ;; !{$0} | {has(elem(@fetch_jobs).second.request_map, $0.id)}
at send_request(elem(get_subset(@synced_peers, (-size(elem(@fetch_jobs).second.pending) + @min_sync_peers), @rand_engine)), %shared_ptr<Node_get_block>, true) ;; !{elem(@fetch_jobs).second.is_done} ;; !{elem(@fetch_jobs).second.from_peer} ;; {elem(@fetch_jobs).second.hash} ;; !{empty(@synced_peers)} | !{empty(elem(@fetch_jobs).second.pending)} ;; {size(elem(@fetch_jobs).second.pending) < @min_sync_peers} ;; !{$0} | {has(elem(@fetch_jobs).second.request_map, $0.id)}
at at(elem(@fetch_jobs).second.request_map, send_request(elem(get_subset(@synced_peers, (-size(elem(@fetch_jobs).second.pending) + @min_sync_peers), @rand_engine)), %shared_ptr<Node_get_block>, true)) = elem(get_subset(@synced_peers, (-size(elem(@fetch_jobs).second.pending) + @min_sync_peers), @rand_engine)) ;; !{elem(@fetch_jobs).second.is_done} ;; !{elem(@fetch_jobs).second.from_peer} ;; {elem(@fetch_jobs).second.hash} ;; !{empty(@synced_peers)} | !{empty(elem(@fetch_jobs).second.pending)} ;; {size(elem(@fetch_jobs).second.pending) < @min_sync_peers} ;; !{$0} | {has(elem(@fetch_jobs).second.request_map, $0.id)}
at insert(elem(@fetch_jobs).second.pending, elem(get_subset(@synced_peers, (-size(elem(@fetch_jobs).second.pending) + @min_sync_peers), @rand_engine))) ;; !{elem(@fetch_jobs).second.is_done} ;; !{elem(@fetch_jobs).second.from_peer} ;; {elem(@fetch_jobs).second.hash} ;; !{empty(@synced_peers)} | !{empty(elem(@fetch_jobs).second.pending)} ;; {size(elem(@fetch_jobs).second.pending) < @min_sync_peers} ;; !{$0} | {has(elem(@fetch_jobs).second.request_map, $0.id)}
at vnx_async_return_ex_what(elem(@fetch_jobs).first, "invalid request") ;; !{elem(@fetch_jobs).second.is_done} ;; !{elem(@fetch_jobs).second.from_peer} ;; !{elem(@fetch_jobs).second.hash} ;; !{$0} | {has(elem(@fetch_jobs).second.request_map, $0.id)}
at erase(@fetch_jobs, fold(begin(@fetch_jobs), ite({~.second.is_done}, erase(@fetch_jobs, ~), (~ + 1)))) ;; !{end(@fetch_jobs) == fold(begin(@fetch_jobs), ite({~.second.is_done}, erase(@fetch_jobs, ~), (~ + 1)))} ;; {fold(begin(@fetch_jobs), ite({~.second.is_done}, erase(@fetch_jobs, ~), (~ + 1))).second.is_done}
fn mmx::Router::query
each @next_request_id = (@next_request_id + 1)
each %shared_ptr<Request>.id = @next_request_id
each %shared_ptr<Request>.method = create()
each send_all(%shared_ptr<Request>, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), false)
each @last_query_ms = get_time_ms()
never throw …
exit {did %shared_ptr<Request>.id = @next_request_id}
exit {did %shared_ptr<Request>.method = create()}
exit {did @last_query_ms = get_time_ms()}
exit {did @next_request_id = (@next_request_id + 1)}
exit {did send_all(%shared_ptr<Request>, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), false)}
at @next_request_id = (@next_request_id + 1)
at %shared_ptr<Request>.id = @next_request_id
at %shared_ptr<Request>.method = create()
at send_all(%shared_ptr<Request>, ctor(set<node_type_e>, init(node_type_e[2], node_type_e::FULL_NODE, node_type_e::LIGHT_NODE), ctor(less<node_type_e>)), false)
at @last_query_ms = get_time_ms()
fn mmx::Router::resolve
each at(@host_map, $0) = resolve_host($0) ;; !{find_value(@host_map, $0)}
never throw …
exit !{find_value(@host_map, $0)} | {ret = find_value(@host_map, $0)}
exit {find_value(@host_map, $0)} | {ret = resolve_host($0)}
exit {did at(@host_map, $0) = resolve_host($0)} | {find_value(@host_map, $0)}
at at(@host_map, $0) = resolve_host($0) ;; !{find_value(@host_map, $0)}
fn mmx::Router::save_data
each open(%File, "wb")
each write_generic(%File.out, ctor(set<string,less<string>,allocator<string>>, begin(get_known_peers()), end(get_known_peers())), 0, 0)
each close(%File)
never break(@timelord_credit)
never throw …
at open(%File, "wb")
at write_generic(%File.out, ctor(set<string,less<string>,allocator<string>>, begin(get_known_peers()), end(get_known_peers())), 0, 0)
at close(%File)
fn mmx::Router::update
never break(loop)
never break(@peer_map)
never break(@sync_jobs)
each elem(@peer_map).second.pending_cost = (0.99899999999999999 * max(0, elem(@peer_map).second.pending_cost))
each erase(elem(@peer_map).second.sent_hashes, front(elem(@peer_map).second.hash_queue)) ;; {@max_sent_cache < size(elem(@peer_map).second.hash_queue)}
each pop(elem(@peer_map).second.hash_queue) ;; {@max_sent_cache < size(elem(@peer_map).second.hash_queue)}
each disconnect(elem(@peer_map).first) ;; {0 < @connection_timeout_ms} ;; {@connection_timeout_ms < (-max(elem(@peer_map).second.connected_since_ms, elem(@peer_map).second.last_receive_ms) + get_time_ms())}
each disconnect(elem(@peer_map).first) ;; {@disconnect_interval} ;; !{elem(@peer_map).second.is_outbound} ;; {@disconnect_interval < ((-elem(@peer_map).second.connected_since_ms + get_time_ms()) / 1000)}
each erase(@hash_info, front(@hash_queue)) ;; {@max_hash_cache < size(@hash_queue)}
each pop(@hash_queue) ;; {@max_hash_cache < size(@hash_queue)}
each get_synced_height(@node, lambda, 0) ;; {total(@peer_map, ite((!{(-elem(@peer_map).second.last_receive_ms + get_time_ms()) < (1000 * @sync_loss_delay)} || !{elem(@peer_map).second.is_synced}), 0, 1)) < @min_sync_peers}
each @is_connected = false ;; {total(@peer_map, ite((!{(-elem(@peer_map).second.last_receive_ms + get_time_ms()) < (1000 * @sync_loss_delay)} || !{elem(@peer_map).second.is_synced}), 0, 1)) < @min_sync_peers} ;; {@is_connected} ;; {$cb0}
each start_sync(@node, 0, 0, 0) ;; {total(@peer_map, ite((!{(-elem(@peer_map).second.last_receive_ms + get_time_ms()) < (1000 * @sync_loss_delay)} || !{elem(@peer_map).second.is_synced}), 0, 1)) < @min_sync_peers} ;; {@is_connected} ;; {$cb0}
each @is_connected = true ;; !{total(@peer_map, ite((!{(-elem(@peer_map).second.last_receive_ms + get_time_ms()) < (1000 * @sync_loss_delay)} || !{elem(@peer_map).second.is_synced}), 0, 1)) < @min_sync_peers}
each erase(@synced_peers, elem(elem(@sync_jobs).second.pending)) ;; !{size(@synced_peers) < @min_sync_peers} ;; {@fetch_timeout_ms < (-max(elem(@sync_jobs).second.last_recv_ms, elem(@sync_jobs).second.start_time_ms) + get_time_ms())}
each elem(@sync_jobs).second = new(Router::sync_job_t) ;; !{size(@synced_peers) < @min_sync_peers} ;; {@fetch_timeout_ms < (-max(elem(@sync_jobs).second.last_recv_ms, elem(@sync_jobs).second.start_time_ms) + get_time_ms())}
each new(Router::sync_job_t).height = elem(@sync_jobs).second.height ;; !{size(@synced_peers) < @min_sync_peers} ;; {@fetch_timeout_ms < (-max(elem(@sync_jobs).second.last_recv_ms, elem(@sync_jobs).second.start_time_ms) + get_time_ms())}
each new(Router::sync_job_t).start_time_ms = get_time_ms() ;; !{size(@synced_peers) < @min_sync_peers} ;; {@fetch_timeout_ms < (-max(elem(@sync_jobs).second.last_recv_ms, elem(@sync_jobs).second.start_time_ms) + get_time_ms())}
each vnx_async_return_ex_what(fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1))).first, "fetch timeout") ;; !{end(@fetch_jobs) == fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1)))} ;; {@fetch_timeout_ms < (-max(fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1))).second.last_recv_ms, fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1))).second.start_time_ms) + get_time_ms())}
each erase(@fetch_jobs, fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1)))) ;; !{end(@fetch_jobs) == fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1)))} ;; {@fetch_timeout_ms < (-max(fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1))).second.last_recv_ms, fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1))).second.start_time_ms) + get_time_ms())}
each process(0)
never break(elem(@sync_jobs).second.pending)
never throw …
value fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1)))
exit !{@max_hash_cache < size(@hash_queue)}
exit !{@max_sent_cache < size(elem(@peer_map).second.hash_queue)}
exit {did elem(@peer_map).second.pending_cost = (0.99899999999999999 * max(0, elem(@peer_map).second.pending_cost))}
exit {did erase(elem(@peer_map).second.sent_hashes, front(elem(@peer_map).second.hash_queue))}
exit {did pop(elem(@peer_map).second.hash_queue)}
exit {did process(0)}
exit {end(@fetch_jobs) == fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1)))}
exit !{@fetch_timeout_ms < (-max(fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1))).second.last_recv_ms, fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1))).second.start_time_ms) + get_time_ms())} | {did erase(@fetch_jobs, fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1))))}
exit !{@fetch_timeout_ms < (-max(fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1))).second.last_recv_ms, fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1))).second.start_time_ms) + get_time_ms())} | {did vnx_async_return_ex_what(fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1))).first, "fetch timeout")}
exit !{total(@peer_map, ite((!{(-elem(@peer_map).second.last_receive_ms + get_time_ms()) < (1000 * @sync_loss_delay)} || !{elem(@peer_map).second.is_synced}), 0, 1)) < @min_sync_peers} | {did get_synced_height(@node, lambda, 0)}
exit {did @is_connected = true} | {total(@peer_map, ite((!{(-elem(@peer_map).second.last_receive_ms + get_time_ms()) < (1000 * @sync_loss_delay)} || !{elem(@peer_map).second.is_synced}), 0, 1)) < @min_sync_peers}
exit !{0 < @connection_timeout_ms} | !{@connection_timeout_ms < (-max(elem(@peer_map).second.connected_since_ms, elem(@peer_map).second.last_receive_ms) + get_time_ms())} | {did disconnect(elem(@peer_map).first)}
exit !{@fetch_timeout_ms < (-max(elem(@sync_jobs).second.last_recv_ms, elem(@sync_jobs).second.start_time_ms) + get_time_ms())} | {did elem(@sync_jobs).second = new(Router::sync_job_t)} | {size(@synced_peers) < @min_sync_peers}
exit !{@fetch_timeout_ms < (-max(elem(@sync_jobs).second.last_recv_ms, elem(@sync_jobs).second.start_time_ms) + get_time_ms())} | {did erase(@synced_peers, elem(elem(@sync_jobs).second.pending))} | {size(@synced_peers) < @min_sync_peers}
exit !{@fetch_timeout_ms < (-max(elem(@sync_jobs).second.last_recv_ms, elem(@sync_jobs).second.start_time_ms) + get_time_ms())} | {did new(Router::sync_job_t).height = elem(@sync_jobs).second.height} | {size(@synced_peers) < @min_sync_peers}
exit !{@fetch_timeout_ms < (-max(elem(@sync_jobs).second.last_recv_ms, elem(@sync_jobs).second.start_time_ms) + get_time_ms())} | {did new(Router::sync_job_t).start_time_ms = get_time_ms()} | {size(@synced_peers) < @min_sync_peers}
exit !{@disconnect_interval < ((-elem(@peer_map).second.connected_since_ms + get_time_ms()) / 1000)} | !{@disconnect_interval} | {did disconnect(elem(@peer_map).first)} | {elem(@peer_map).second.is_outbound}
at elem(@peer_map).second.pending_cost = (0.99899999999999999 * max(0, elem(@peer_map).second.pending_cost))
at erase(elem(@peer_map).second.sent_hashes, front(elem(@peer_map).second.hash_queue)) ;; {@max_sent_cache < size(elem(@peer_map).second.hash_queue)}
at pop(elem(@peer_map).second.hash_queue) ;; {@max_sent_cache < size(elem(@peer_map).second.hash_queue)}
at disconnect(elem(@peer_map).first) ;; {0 < @connection_timeout_ms} | {@disconnect_interval}
at erase(@hash_info, front(@hash_queue)) ;; {@max_hash_cache < size(@hash_queue)}
at pop(@hash_queue) ;; {@max_hash_cache < size(@hash_queue)}
at get_synced_height(@node, lambda, 0) ;; {total(@peer_map, ite((!{(-elem(@peer_map).second.last_receive_ms + get_time_ms()) < (1000 * @sync_loss_delay)} || !{elem(@peer_map).second.is_synced}), 0, 1)) < @min_sync_peers}
at @is_connected = false ;; {total(@peer_map, ite((!{(-elem(@peer_map).second.last_receive_ms + get_time_ms()) < (1000 * @sync_loss_delay)} || !{elem(@peer_map).second.is_synced}), 0, 1)) < @min_sync_peers} ;; {@is_connected} ;; {$cb0}
at start_sync(@node, 0, 0, 0) ;; {total(@peer_map, ite((!{(-elem(@peer_map).second.last_receive_ms + get_time_ms()) < (1000 * @sync_loss_delay)} || !{elem(@peer_map).second.is_synced}), 0, 1)) < @min_sync_peers} ;; {@is_connected} ;; {$cb0}
at @is_connected = true ;; !{total(@peer_map, ite((!{(-elem(@peer_map).second.last_receive_ms + get_time_ms()) < (1000 * @sync_loss_delay)} || !{elem(@peer_map).second.is_synced}), 0, 1)) < @min_sync_peers}
at erase(@synced_peers, elem(elem(@sync_jobs).second.pending)) ;; !{size(@synced_peers) < @min_sync_peers} ;; {@fetch_timeout_ms < (-max(elem(@sync_jobs).second.last_recv_ms, elem(@sync_jobs).second.start_time_ms) + get_time_ms())}
at elem(@sync_jobs).second = new(Router::sync_job_t) ;; !{size(@synced_peers) < @min_sync_peers} ;; {@fetch_timeout_ms < (-max(elem(@sync_jobs).second.last_recv_ms, elem(@sync_jobs).second.start_time_ms) + get_time_ms())}
at new(Router::sync_job_t).height = elem(@sync_jobs).second.height ;; !{size(@synced_peers) < @min_sync_peers} ;; {@fetch_timeout_ms < (-max(elem(@sync_jobs).second.last_recv_ms, elem(@sync_jobs).second.start_time_ms) + get_time_ms())}
at new(Router::sync_job_t).start_time_ms = get_time_ms() ;; !{size(@synced_peers) < @min_sync_peers} ;; {@fetch_timeout_ms < (-max(elem(@sync_jobs).second.last_recv_ms, elem(@sync_jobs).second.start_time_ms) + get_time_ms())}
at vnx_async_return_ex_what(fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1))).first, "fetch timeout") ;; !{end(@fetch_jobs) == fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1)))} ;; {@fetch_timeout_ms < (-max(fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1))).second.last_recv_ms, fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1))).second.start_time_ms) + get_time_ms())}
at erase(@fetch_jobs, fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1)))) ;; !{end(@fetch_jobs) == fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1)))} ;; {@fetch_timeout_ms < (-max(fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1))).second.last_recv_ms, fold(begin(@fetch_jobs), ite({@fetch_timeout_ms < (-max(~.second.last_recv_ms, ~.second.start_time_ms) + get_time_ms())}, erase(@fetch_jobs, ~), (~ + 1))).second.start_time_ms) + get_time_ms())}
at process(0)
