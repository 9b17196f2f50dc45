tus src/Farmer.cpp src/TimeLord.cpp
fn mmx::Farmer::get_farm_info
each at(%shared_ptr<FarmInfo>.harvester_bytes, elem(@info_map).second.value.harvester).first = (at(%shared_ptr<FarmInfo>.harvester_bytes, elem(@info_map).second.value.harvester).first + elem(@info_map).second.value.total_bytes) ;; {is<FarmInfo>(elem(@info_map).second.value)} ;; {elem(@info_map).second.value} ;; {elem(@info_map).second.value.harvester}
each at(%shared_ptr<FarmInfo>.harvester_bytes, elem(@info_map).second.value.harvester).second = (at(%shared_ptr<FarmInfo>.harvester_bytes, elem(@info_map).second.value.harvester).second + elem(@info_map).second.value.total_bytes_effective) ;; {is<FarmInfo>(elem(@info_map).second.value)} ;; {elem(@info_map).second.value} ;; {elem(@info_map).second.value.harvester}
each at(%shared_ptr<FarmInfo>.plot_count, elem(elem(@info_map).second.value.plot_count).first) = (at(%shared_ptr<FarmInfo>.plot_count, elem(elem(@info_map).second.value.plot_count).first) + elem(elem(@info_map).second.value.plot_count).second) ;; {is<FarmInfo>(elem(@info_map).second.value)} ;; {elem(@info_map).second.value}
each push_back(%shared_ptr<FarmInfo>.plot_dirs, (ite({elem(@info_map).second.value.harvester}, (elem(@info_map).second.value.harvester ++ ":"), "") ++ elem(elem(@info_map).second.value.plot_dirs))) ;; {is<FarmInfo>(elem(@info_map).second.value)} ;; {elem(@info_map).second.value}
each at(%shared_ptr<FarmInfo>.pool_info, elem(elem(@info_map).second.value.pool_info).first) = elem(elem(@info_map).second.value.pool_info).second ;; {is<FarmInfo>(elem(@info_map).second.value)} ;; {elem(@info_map).second.value}
each elem(elem(@info_map).second.value.pool_info).second.plot_count = (at(%shared_ptr<FarmInfo>.pool_info, elem(elem(@info_map).second.value.pool_info).first).plot_count + elem(elem(@info_map).second.value.pool_info).second.plot_count) ;; {is<FarmInfo>(elem(@info_map).second.value)} ;; {elem(@info_map).second.value}
each %shared_ptr<FarmInfo>.total_bytes = (%shared_ptr<FarmInfo>.total_bytes + elem(@info_map).second.value.total_bytes) ;; {is<FarmInfo>(elem(@info_map).second.value)} ;; {elem(@info_map).second.value}
each %shared_ptr<FarmInfo>.total_bytes_effective = (%shared_ptr<FarmInfo>.total_bytes_effective + elem(@info_map).second.value.total_bytes_effective) ;; {is<FarmInfo>(elem(@info_map).second.value)} ;; {elem(@info_map).second.value}
each %shared_ptr<FarmInfo>.total_balance = (%shared_ptr<FarmInfo>.total_balance + elem(@info_map).second.value.total_balance) ;; {is<FarmInfo>(elem(@info_map).second.value)} ;; {elem(@info_map).second.value}
each elem(%shared_ptr<FarmInfo>.pool_info).second.partial_diff = get_partial_diff(elem(%shared_ptr<FarmInfo>.pool_info).first)
each %shared_ptr<FarmInfo>.pool_stats = @nft_stats
each %shared_ptr<FarmInfo>.reward_addr = @reward_addr
never break(elem(@info_map).second.value.plot_count)
never break(elem(@info_map).second.value.plot_dirs)
never break(elem(@info_map).second.value.pool_info)
never break(@info_map)
never break(%shared_ptr<FarmInfo>.pool_info)
never throw …
exit {did %shared_ptr<FarmInfo>.pool_stats = @nft_stats}
exit {did %shared_ptr<FarmInfo>.reward_addr = @reward_addr}
exit {did elem(%shared_ptr<FarmInfo>.pool_info).second.partial_diff = get_partial_diff(elem(%shared_ptr<FarmInfo>.pool_info).first)}
exit {ret = %shared_ptr<FarmInfo>}
exit !{elem(@info_map).second.value} | !{is<FarmInfo>(elem(@info_map).second.value)} | {did %shared_ptr<FarmInfo>.total_balance = (%shared_ptr<FarmInfo>.total_balance + elem(@info_map).second.value.total_balance)}
exit !{elem(@info_map).second.value} | !{is<FarmInfo>(elem(@info_map).second.value)} | {did %shared_ptr<FarmInfo>.total_bytes = (%shared_ptr<FarmInfo>.total_bytes + elem(@info_map).second.value.total_bytes)}
exit !{elem(@info_map).second.value} | !{is<FarmInfo>(elem(@info_map).second.value)} | {did %shared_ptr<FarmInfo>.total_bytes_effective = (%shared_ptr<FarmInfo>.total_bytes_effective + elem(@info_map).second.value.total_bytes_effective)}
exit !{elem(@info_map).second.value} | !{is<FarmInfo>(elem(@info_map).second.value)} | {did at(%shared_ptr<FarmInfo>.plot_count, elem(elem(@info_map).second.value.plot_count).first) = (at(%shared_ptr<FarmInfo>.plot_count, elem(elem(@info_map).second.value.plot_count).first) + elem(elem(@info_map).second.value.plot_count).second)}
exit !{elem(@info_map).second.value} | !{is<FarmInfo>(elem(@info_map).second.value)} | {did at(%shared_ptr<FarmInfo>.pool_info, elem(elem(@info_map).second.value.pool_info).first) = elem(elem(@info_map).second.value.pool_info).second}
exit !{elem(@info_map).second.value} | !{is<FarmInfo>(elem(@info_map).second.value)} | {did elem(elem(@info_map).second.value.pool_info).second.plot_count = (at(%shared_ptr<FarmInfo>.pool_info, elem(elem(@info_map).second.value.pool_info).first).plot_count + elem(elem(@info_map).second.value.pool_info).second.plot_count)}
exit !{elem(@info_map).second.value} | !{is<FarmInfo>(elem(@info_map).second.value)} | {did push_back(%shared_ptr<FarmInfo>.plot_dirs, (ite({elem(@info_map).second.value.harvester}, (elem(@info_map).second.value.harvester ++ ":"), "") ++ elem(elem(@info_map).second.value.plot_dirs)))}
exit !{elem(@info_map).second.value.harvester} | !{elem(@info_map).second.value} | !{is<FarmInfo>(elem(@info_map).second.value)} | {did at(%shared_ptr<FarmInfo>.harvester_bytes, elem(@info_map).second.value.harvester).first = (at(%shared_ptr<FarmInfo>.harvester_bytes, elem(@info_map).second.value.harvester).first + elem(@info_map).second.value.total_bytes)}
exit !{elem(@info_map).second.value.harvester} | !{elem(@info_map).second.value} | !{is<FarmInfo>(elem(@info_map).second.value)} | {did at(%shared_ptr<FarmInfo>.harvester_bytes, elem(@info_map).second.value.harvester).second = (at(%shared_ptr<FarmInfo>.harvester_bytes, elem(@info_map).second.value.harvester).second + elem(@info_map).second.value.total_bytes_effective)}
at at(%shared_ptr<FarmInfo>.harvester_bytes, elem(@info_map).second.value.harvester).first = (at(%shared_ptr<FarmInfo>.harvester_bytes, elem(@info_map).second.value.harvester).first + elem(@info_map).second.value.total_bytes) ;; {is<FarmInfo>(elem(@info_map).second.value)} ;; {elem(@info_map).second.value} ;; {elem(@info_map).second.value.harvester}
at at(%shared_ptr<FarmInfo>.harvester_bytes, elem(@info_map).second.value.harvester).second = (at(%shared_ptr<FarmInfo>.harvester_bytes, elem(@info_map).second.value.harvester).second + elem(@info_map).second.value.total_bytes_effective) ;; {is<FarmInfo>(elem(@info_map).second.value)} ;; {elem(@info_map).second.value} ;; {elem(@info_map).second.value.harvester}
at at(%shared_ptr<FarmInfo>.plot_count, elem(elem(@info_map).second.value.plot_count).first) = (at(%shared_ptr<FarmInfo>.plot_count, elem(elem(@info_map).second.value.plot_count).first) + elem(elem(@info_map).second.value.plot_count).second) ;; {is<FarmInfo>(elem(@info_map).second.value)} ;; {elem(@info_map).second.value}
at push_back(%shared_ptr<FarmInfo>.plot_dirs, (ite({elem(@info_map).second.value.harvester}, (elem(@info_map).second.value.harvester ++ ":"), "") ++ elem(elem(@info_map).second.value.plot_dirs))) ;; {is<FarmInfo>(elem(@info_map).second.value)} ;; {elem(@info_map).second.value}
at at(%shared_ptr<FarmInfo>.pool_info, elem(elem(@info_map).second.value.pool_info).first) = elem(elem(@info_map).second.value.pool_info).second ;; {is<FarmInfo>(elem(@info_map).second.value)} ;; {elem(@info_map).second.value}
at elem(elem(@info_map).second.value.pool_info).second.plot_count = (at(%shared_ptr<FarmInfo>.pool_info, elem(elem(@info_map).second.value.pool_info).first).plot_count + elem(elem(@info_map).second.value.pool_info).second.plot_count) ;; {is<FarmInfo>(elem(@info_map).second.value)} ;; {elem(@info_map).second.value}
at %shared_ptr<FarmInfo>.total_bytes = (%shared_ptr<FarmInfo>.total_bytes + elem(@info_map).second.value.total_bytes) ;; {is<FarmInfo>(elem(@info_map).second.value)} ;; {elem(@info_map).second.value}
at %shared_ptr<FarmInfo>.total_bytes_effective = (%shared_ptr<FarmInfo>.total_bytes_effective + elem(@info_map).second.value.total_bytes_effective) ;; {is<FarmInfo>(elem(@info_map).second.value)} ;; {elem(@info_map).second.value}
at %shared_ptr<FarmInfo>.total_balance = (%shared_ptr<FarmInfo>.total_balance + elem(@info_map).second.value.total_balance) ;; {is<FarmInfo>(elem(@info_map).second.value)} ;; {elem(@info_map).second.value}
at elem(%shared_ptr<FarmInfo>.pool_info).second.partial_diff = get_partial_diff(elem(%shared_ptr<FarmInfo>.pool_info).first)
at %shared_ptr<FarmInfo>.pool_stats = @nft_stats
at %shared_ptr<FarmInfo>.reward_addr = @reward_addr
fn mmx::Farmer::get_farmer_keys
each push_back(%vector<pubkey_t>, elem(@key_map).first)
never break(@key_map)
never throw …
exit {did push_back(%vector<pubkey_t>, elem(@key_map).first)}
exit {ret = %vector<pubkey_t>}
at push_back(%vector<pubkey_t>, elem(@key_map).first)
fn mmx::Farmer::get_mac_addr
never throw …
exit {ret = vnx_get_id()}
fn mmx::Farmer::get_partial_diff
never throw …
exit !{at(@nft_stats, $0).partial_diff} | !{has(@nft_stats, $0)} | {ret = at(@nft_stats, $0).partial_diff}
exit {at(@nft_stats, $0).partial_diff} | {ret = 0}
exit {has(@nft_stats, $0)} | {ret = 0}
fn mmx::Farmer::get_partial_diffs
each at(%map<addr_t,unsignedlong>, elem($0)) = get_partial_diff(elem($0)) ;; {get_partial_diff(elem($0))}
never break($0)
never throw …
exit {ret = %map<addr_t,unsignedlong>}
exit !{get_partial_diff(elem($0))} | {did at(%map<addr_t,unsignedlong>, elem($0)) = get_partial_diff(elem($0))}
at at(%map<addr_t,unsignedlong>, elem($0)) = get_partial_diff(elem($0)) ;; {get_partial_diff(elem($0))}
fn mmx::Farmer::get_skey
raise !{has(@key_map, $0)}
exit {has(@key_map, $0)}
exit {ret = at(@key_map, $0)}
fn mmx::Farmer::handle sig=(std::shared_ptr<const~mmx::FarmInfo>)
each at(@info_map, $0.harvester_id) = @vnx_sample ;; {@vnx_sample} ;; {$0.harvester_id}
each at(@info_map, ctor(hash_t, $0.harvester)) = @vnx_sample ;; {@vnx_sample} ;; !{$0.harvester_id} ;; {$0.harvester}
each at(@nft_stats, elem($0.pool_info).second.contract).server_url = elem($0.pool_info).second.server_url ;; {elem($0.pool_info).second.server_url} ;; !{empty(elem($0.pool_info).second.server_url)} ;; !{at(@nft_stats, elem($0.pool_info).second.contract).server_url == elem($0.pool_info).second.server_url}
each query_difficulty(elem($0.pool_info).second.contract, elem($0.pool_info).second.server_url) ;; {elem($0.pool_info).second.server_url} ;; !{empty(elem($0.pool_info).second.server_url)} ;; !{at(@nft_stats, elem($0.pool_info).second.contract).server_url == elem($0.pool_info).second.server_url}
never break($0.pool_info)
never throw …
exit !{$0.harvester_id} | !{@vnx_sample} | {did at(@info_map, $0.harvester_id) = @vnx_sample}
exit !{$0.harvester} | !{@vnx_sample} | {$0.harvester_id} | {did at(@info_map, ctor(hash_t, $0.harvester)) = @vnx_sample}
exit !{elem($0.pool_info).second.server_url} | {at(@nft_stats, elem($0.pool_info).second.contract).server_url == elem($0.pool_info).second.server_url} | {did at(@nft_stats, elem($0.pool_info).second.contract).server_url = elem($0.pool_info).second.server_url} | {empty(elem($0.pool_info).second.server_url)}
exit !{elem($0.pool_info).second.server_url} | {at(@nft_stats, elem($0.pool_info).second.contract).server_url == elem($0.pool_info).second.server_url} | {did query_difficulty(elem($0.pool_info).second.contract, elem($0.pool_info).second.server_url)} | {empty(elem($0.pool_info).second.server_url)}
at at(@info_map, $0.harvester_id) = @vnx_sample ;; {@vnx_sample} ;; {$0.harvester_id}
at at(@info_map, ctor(hash_t, $0.harvester)) = @vnx_sample ;; {@vnx_sample} ;; !{$0.harvester_id} ;; {$0.harvester}
at at(@nft_stats, elem($0.pool_info).second.contract).server_url = elem($0.pool_info).second.server_url ;; {elem($0.pool_info).second.server_url} ;; !{empty(elem($0.pool_info).second.server_url)} ;; !{at(@nft_stats, elem($0.pool_info).second.contract).server_url == elem($0.pool_info).second.server_url}
at query_difficulty(elem($0.pool_info).second.contract, elem($0.pool_info).second.server_url) ;; {elem($0.pool_info).second.server_url} ;; !{empty(elem($0.pool_info).second.server_url)} ;; !{at(@nft_stats, elem($0.pool_info).second.contract).server_url == elem($0.pool_info).second.server_url}
fn mmx::Farmer::handle sig=(std::shared_ptr<const~mmx::ProofResponse>)
each clone($0).farmer_sig = sign(get_skey($0.proof.farmer_key), $0.hash) ;; {is_valid($0)}
each clone($0).content_hash = calc_content_hash(clone($0)) ;; {is_valid($0)}
each publish(clone($0), @output_proofs, 0) ;; {is_valid($0)}
raise !{is_valid($0)}
at clone($0).farmer_sig = sign(get_skey($0.proof.farmer_key), $0.hash) ;; {is_valid($0)}
at clone($0).content_hash = calc_content_hash(clone($0)) ;; {is_valid($0)}
at publish(clone($0), @output_proofs, 0) ;; {is_valid($0)}
fn mmx::Farmer::handle sig=(std::shared_ptr<const~mmx::Partial>)
each clone($0).account = @reward_addr ;; {$0.proof} ;; {@reward_addr}
each clone($0).hash = calc_hash(clone($0)) ;; {$0.proof}
each clone($0).farmer_sig = sign(get_skey($0.proof.farmer_key), clone($0).hash) ;; {$0.proof}
each post_json(@http_async, (clone($0).pool_url ++ "/partial"), ctor(Variant, to_pretty_string(web_render(clone($0)))), init(addons::http_request_options_t, ctor(map<string,string,less<string>,allocator<pair<string,string>>>), ctor(map<string,string,less<string>,allocator<pair<string,string>>>), 0, 0, 0, true, ctor(vector<pair<string,string>,allocator<pair<string,string>>>)), lambda, lambda) ;; {$0.proof}
each at(@nft_stats, clone($0).contract).last_partial = get_time_sec() ;; {$0.proof}
each at(@nft_stats, clone($0).contract).valid_points = (at(@nft_stats, clone($0).contract).valid_points + ite({0 < to(at(to_object(parse_json($cb0)), "points"))}, to(at(to_object(parse_json($cb0)), "points")), clone($0).proof.difficulty)) ;; {$0.proof} ;; {is_json($cb0)} ;; {is_object(parse_json($cb0))} ;; {to(at(to_object(parse_json($cb0)), "valid"))}
each at(@nft_stats, clone($0).contract).total_partials = (at(@nft_stats, clone($0).contract).total_partials + 1) ;; {$0.proof} ;; {is_json($cb0)} ;; {is_object(parse_json($cb0))} ;; {to(at(to_object(parse_json($cb0)), "valid"))}
each at(@nft_stats, clone($0).contract).total_response_time = (at(@nft_stats, clone($0).contract).total_response_time + to(at(to_object(parse_json($cb0)), "response_time"))) ;; {$0.proof} ;; {is_json($cb0)} ;; {is_object(parse_json($cb0))} ;; {to(at(to_object(parse_json($cb0)), "valid"))}
each at(at(@nft_stats, clone($0).contract).error_count, to(at(to_object(parse_json($cb0)), "error_code"))) = (at(at(@nft_stats, clone($0).contract).error_count, to(at(to_object(parse_json($cb0)), "error_code"))) + 1) ;; {$0.proof} ;; {is_json($cb0)} ;; {is_object(parse_json($cb0))} ;; !{to(at(to_object(parse_json($cb0)), "valid"))} ;; !{pooling_error_e::NONE == to(at(to_object(parse_json($cb0)), "error_code"))}
each at(at(@nft_stats, clone($0).contract).error_count, pooling_error_e::SERVER_ERROR) = (at(at(@nft_stats, clone($0).contract).error_count, pooling_error_e::SERVER_ERROR) + 1) ;; {$0.proof} ;; !{is_json($cb0)} | !{is_object(parse_json($cb0))} | !{to(at(to_object(parse_json($cb0)), "valid"))} ;; !{is_json($cb0)} | !{is_object(parse_json($cb0))} | {pooling_error_e::NONE == to(at(to_object(parse_json($cb0)), "error_code"))} | {to(at(to_object(parse_json($cb0)), "valid"))}
each at(@nft_stats, clone($0).contract).failed_points = (at(@nft_stats, clone($0).contract).failed_points + clone($0).proof.difficulty) ;; {$0.proof} ;; !{is_json($cb0)} | !{is_object(parse_json($cb0))} | !{to(at(to_object(parse_json($cb0)), "valid"))}
each at(@nft_stats, clone($0).contract).failed_points = (at(@nft_stats, clone($0).contract).failed_points + clone($0).proof.difficulty) ;; {$0.proof}
each at(at(@nft_stats, clone($0).contract).error_count, pooling_error_e::SERVER_ERROR) = (at(at(@nft_stats, clone($0).contract).error_count, pooling_error_e::SERVER_ERROR) + 1) ;; {$0.proof}
each publish(clone($0), @output_partials, 0) ;; {$0.proof}
never throw …
at clone($0).account = @reward_addr ;; {$0.proof} ;; {@reward_addr}
at clone($0).hash = calc_hash(clone($0)) ;; {$0.proof}
at clone($0).farmer_sig = sign(get_skey($0.proof.farmer_key), clone($0).hash) ;; {$0.proof}
at post_json(@http_async, (clone($0).pool_url ++ "/partial"), ctor(Variant, to_pretty_string(web_render(clone($0)))), init(addons::http_request_options_t, ctor(map<string,string,less<string>,allocator<pair<string,string>>>), ctor(map<string,string,less<string>,allocator<pair<string,string>>>), 0, 0, 0, true, ctor(vector<pair<string,string>,allocator<pair<string,string>>>)), lambda, lambda) ;; {$0.proof}
at at(@nft_stats, clone($0).contract).last_partial = get_time_sec() ;; {$0.proof}
at at(@nft_stats, clone($0).contract).valid_points = (at(@nft_stats, clone($0).contract).valid_points + ite({0 < to(at(to_object(parse_json($cb0)), "points"))}, to(at(to_object(parse_json($cb0)), "points")), clone($0).proof.difficulty)) ;; {$0.proof} ;; {is_json($cb0)} ;; {is_object(parse_json($cb0))} ;; {to(at(to_object(parse_json($cb0)), "valid"))}
at at(@nft_stats, clone($0).contract).total_partials = (at(@nft_stats, clone($0).contract).total_partials + 1) ;; {$0.proof} ;; {is_json($cb0)} ;; {is_object(parse_json($cb0))} ;; {to(at(to_object(parse_json($cb0)), "valid"))}
at at(@nft_stats, clone($0).contract).total_response_time = (at(@nft_stats, clone($0).contract).total_response_time + to(at(to_object(parse_json($cb0)), "response_time"))) ;; {$0.proof} ;; {is_json($cb0)} ;; {is_object(parse_json($cb0))} ;; {to(at(to_object(parse_json($cb0)), "valid"))}
at at(at(@nft_stats, clone($0).contract).error_count, to(at(to_object(parse_json($cb0)), "error_code"))) = (at(at(@nft_stats, clone($0).contract).error_count, to(at(to_object(parse_json($cb0)), "error_code"))) + 1) ;; {$0.proof} ;; {is_json($cb0)} ;; {is_object(parse_json($cb0))} ;; !{to(at(to_object(parse_json($cb0)), "valid"))} ;; !{pooling_error_e::NONE == to(at(to_object(parse_json($cb0)), "error_code"))}
at at(at(@nft_stats, clone($0).contract).error_count, pooling_error_e::SERVER_ERROR) = (at(at(@nft_stats, clone($0).contract).error_count, pooling_error_e::SERVER_ERROR) + 1) ;; {$0.proof}
at at(@nft_stats, clone($0).contract).failed_points = (at(@nft_stats, clone($0).contract).failed_points + clone($0).proof.difficulty) ;; {$0.proof}
at publish(clone($0), @output_partials, 0) ;; {$0.proof}
fn mmx::Farmer::main
each @reward_addr = 0 ;; {@reward_addr} ;; {@reward_addr == ctor(addr_t)}
each @params = get_params()
each @http_client = new(addons::HttpClient, ctor(addons::HttpClient, (@vnx_name ++ ".HttpClient")))
each new(addons::HttpClient, ctor(addons::HttpClient, (@vnx_name ++ ".HttpClient"))).output_response = ctor(TopicPtr, "farmer.http_response")
each start(new(addons::HttpClient, ctor(addons::HttpClient, (@vnx_name ++ ".HttpClient"))))
each @wallet = new(WalletAsyncClient, @wallet_server)
each @http_async = new(addons::HttpClientAsyncClient, get_id(new(addons::HttpClient, ctor(addons::HttpClient, (@vnx_name ++ ".HttpClient")))))
each vnx_set_non_blocking(new(WalletAsyncClient, @wallet_server), true)
each vnx_set_non_blocking(new(addons::HttpClientAsyncClient, get_id(new(addons::HttpClient, ctor(addons::HttpClient, (@vnx_name ++ ".HttpClient"))))), true)
each add_async_client(new(WalletAsyncClient, @wallet_server))
each add_async_client(new(addons::HttpClientAsyncClient, get_id(new(addons::HttpClient, ctor(addons::HttpClient, (@vnx_name ++ ".HttpClient"))))))
each set_timer_millis(60000, bind(&update, this))
each set_timer_millis((1000 * @difficulty_interval), bind(&update_difficulty, this))
each update()
each main()
never throw …
exit {did @http_async = new(addons::HttpClientAsyncClient, get_id(new(addons::HttpClient, ctor(addons::HttpClient, (@vnx_name ++ ".HttpClient")))))}
exit {did @http_client = new(addons::HttpClient, ctor(addons::HttpClient, (@vnx_name ++ ".HttpClient")))}
exit {did @params = get_params()}
exit {did @wallet = new(WalletAsyncClient, @wallet_server)}
exit {did add_async_client(new(WalletAsyncClient, @wallet_server))}
exit {did add_async_client(new(addons::HttpClientAsyncClient, get_id(new(addons::HttpClient, ctor(addons::HttpClient, (@vnx_name ++ ".HttpClient"))))))}
exit {did main()}
exit {did new(addons::HttpClient, ctor(addons::HttpClient, (@vnx_name ++ ".HttpClient"))).output_response = ctor(TopicPtr, "farmer.http_response")}
exit {did set_timer_millis((1000 * @difficulty_interval), bind(&update_difficulty, this))}
exit {did set_timer_millis(60000, bind(&update, this))}
exit {did start(new(addons::HttpClient, ctor(addons::HttpClient, (@vnx_name ++ ".HttpClient"))))}
exit {did update()}
exit {did vnx_set_non_blocking(new(WalletAsyncClient, @wallet_server), true)}
exit {did vnx_set_non_blocking(new(addons::HttpClientAsyncClient, get_id(new(addons::HttpClient, ctor(addons::HttpClient, (@vnx_name ++ ".HttpClient"))))), true)}
exit !{@reward_addr == ctor(addr_t)} | !{@reward_addr} | {did @reward_addr = 0}
at @reward_addr = 0 ;; {@reward_addr} ;; {@reward_addr == ctor(addr_t)}
at @params = get_params()
at @http_client = new(addons::HttpClient, ctor(addons::HttpClient, (@vnx_name ++ ".HttpClient")))
at new(addons::HttpClient, ctor(addons::HttpClient, (@vnx_name ++ ".HttpClient"))).output_response = ctor(TopicPtr, "farmer.http_response")
at start(new(addons::HttpClient, ctor(addons::HttpClient, (@vnx_name ++ ".HttpClient"))))
at @wallet = new(WalletAsyncClient, @wallet_server)
at @http_async = new(addons::HttpClientAsyncClient, get_id(new(addons::HttpClient, ctor(addons::HttpClient, (@vnx_name ++ ".HttpClient")))))
at vnx_set_non_blocking(new(WalletAsyncClient, @wallet_server), true)
at vnx_set_non_blocking(new(addons::HttpClientAsyncClient, get_id(new(addons::HttpClient, ctor(addons::HttpClient, (@vnx_name ++ ".HttpClient"))))), true)
at add_async_client(new(WalletAsyncClient, @wallet_server))
at add_async_client(new(addons::HttpClientAsyncClient, get_id(new(addons::HttpClient, ctor(addons::HttpClient, (@vnx_name ++ ".HttpClient"))))))
at set_timer_millis(60000, bind(&update, this))
at set_timer_millis((1000 * @difficulty_interval), bind(&update_difficulty, this))
at update()
at main()
fn mmx::Farmer::query_difficulty
each at(%addons::http_request_options_t.query, "id") = to_string(@reward_addr) ;; !{empty($1)} ;; {@reward_addr}
each get_json(@http_async, ($1 ++ "/difficulty"), %addons::http_request_options_t, lambda, lambda) ;; !{empty($1)}
each at(@nft_stats, $0).partial_diff = to(at(to_object($cb0), "difficulty")) ;; !{empty($1)} ;; {at(to_object($cb0), "difficulty")} ;; {to(at(to_object($cb0), "difficulty"))}
never throw …
exit {did get_json(@http_async, ($1 ++ "/difficulty"), %addons::http_request_options_t, lambda, lambda)} | {empty($1)}
at at(%addons::http_request_options_t.query, "id") = to_string(@reward_addr) ;; !{empty($1)} ;; {@reward_addr}
at get_json(@http_async, ($1 ++ "/difficulty"), %addons::http_request_options_t, lambda, lambda) ;; !{empty($1)}
at at(@nft_stats, $0).partial_diff = to(at(to_object($cb0), "difficulty")) ;; !{empty($1)} ;; {at(to_object($cb0), "difficulty")} ;; {to(at(to_object($cb0), "difficulty"))}
fn mmx::Farmer::sign_block
each clone($0).nonce = rand64() ;; {$0} ;; !{empty($0.proof)}
each clone($0).reward_addr = @reward_addr ;; {$0} ;; !{empty($0.proof)} ;; !{clone($0).reward_addr}
each clone($0).reward_account = @reward_addr ;; {$0} ;; !{empty($0.proof)} ;; {clone($0).reward_contract}
each clone($0).hash = calc_hash(clone($0), @params) ;; {$0} ;; !{empty($0.proof)}
each clone($0).farmer_sig = sign(get_skey(get_farmer_key($0)), clone($0).hash) ;; {$0} ;; !{empty($0.proof)}
each clone($0).content_hash = calc_content_hash(clone($0)) ;; {$0} ;; !{empty($0.proof)}
raise !{$0}
raise {$0} ;; {empty($0.proof)}
exit !{empty($0.proof)}
exit {$0}
exit {did clone($0).content_hash = calc_content_hash(clone($0))}
exit {did clone($0).farmer_sig = sign(get_skey(get_farmer_key($0)), clone($0).hash)}
exit {did clone($0).hash = calc_hash(clone($0), @params)}
exit {did clone($0).nonce = rand64()}
exit {ret = clone($0)}
exit !{clone($0).reward_contract} | {did clone($0).reward_account = @reward_addr}
exit {clone($0).reward_addr} | {did clone($0).reward_addr = @reward_addr}
at clone($0).nonce = rand64()
at clone($0).reward_addr = @reward_addr ;; !{clone($0).reward_addr}
at clone($0).reward_account = @reward_addr ;; {clone($0).reward_contract}
at clone($0).hash = calc_hash(clone($0), @params)
at clone($0).farmer_sig = sign(get_skey(get_farmer_key($0)), clone($0).hash)
at clone($0).content_hash = calc_content_hash(clone($0))
fn mmx::Farmer::sign_vote
raise !{$0}
exit {$0}
exit {ret = sign(get_skey($0.farmer_key), ctor(hash_t, (("MMX/validator/vote/" ++ $0.hash) ++ $0.farmer_key)))}
fn mmx::Farmer::update
never break(loop)
each open_flow(get_pipe(@node_server), get_pipe(vnx_get_id()))
each get_all_farmer_keys(@wallet, lambda, lambda)
each insert(@key_map, elem($cb0).second, elem($cb0).first)
each resume(@pipe)
each get_all_accounts(@wallet, lambda, lambda) ;; !{@reward_addr}
each @reward_addr = elem($cb0).address ;; !{@reward_addr} ;; {elem($cb0).address}
each erase(@info_map, fold(begin(@info_map), ite({@harvester_timeout < ((-~.second.recv_time + get_time_us()) / 1000000)}, erase(@info_map, ~), (~ + 1)))) ;; !{end(@info_map) == fold(begin(@info_map), ite({@harvester_timeout < ((-~.second.recv_time + get_time_us()) / 1000000)}, erase(@info_map, ~), (~ + 1)))} ;; {@harvester_timeout < ((-fold(begin(@info_map), ite({@harvester_timeout < ((-~.second.recv_time + get_time_us()) / 1000000)}, erase(@info_map, ~), (~ + 1))).second.recv_time + get_time_us()) / 1000000)}
never throw …
value fold(begin(@info_map), ite({@harvester_timeout < ((-~.second.recv_time + get_time_us()) / 1000000)}, erase(@info_map, ~), (~ + 1)))
exit {did get_all_farmer_keys(@wallet, lambda, lambda)}
exit {did open_flow(get_pipe(@node_server), get_pipe(vnx_get_id()))}
exit {end(@info_map) == fold(begin(@info_map), ite({@harvester_timeout < ((-~.second.recv_time + get_time_us()) / 1000000)}, erase(@info_map, ~), (~ + 1)))}
exit !{@harvester_timeout < ((-fold(begin(@info_map), ite({@harvester_timeout < ((-~.second.recv_time + get_time_us()) / 1000000)}, erase(@info_map, ~), (~ + 1))).second.recv_time + get_time_us()) / 1000000)} | {did erase(@info_map, fold(begin(@info_map), ite({@harvester_timeout < ((-~.second.recv_time + get_time_us()) / 1000000)}, erase(@info_map, ~), (~ + 1))))}
exit {@reward_addr} | {did get_all_accounts(@wallet, lambda, lambda)}
at open_flow(get_pipe(@node_server), get_pipe(vnx_get_id()))
at get_all_farmer_keys(@wallet, lambda, lambda)
at insert(@key_map, elem($cb0).second, elem($cb0).first)
at resume(@pipe)
at get_all_accounts(@wallet, lambda, lambda) ;; !{@reward_addr}
at @reward_addr = elem($cb0).address ;; !{@reward_addr} ;; !{@reward_addr} ;; {elem($cb0).address}
never break($cb0) ;; !{@reward_addr} ;; !{@reward_addr} ;; {elem($cb0).address}
at erase(@info_map, fold(begin(@info_map), ite({@harvester_timeout < ((-~.second.recv_time + get_time_us()) / 1000000)}, erase(@info_map, ~), (~ + 1)))) ;; !{end(@info_map) == fold(begin(@info_map), ite({@harvester_timeout < ((-~.second.recv_time + get_time_us()) / 1000000)}, erase(@info_map, ~), (~ + 1)))} ;; {@harvester_timeout < ((-fold(begin(@info_map), ite({@harvester_timeout < ((-~.second.recv_time + get_time_us()) / 1000000)}, erase(@info_map, ~), (~ + 1))).second.recv_time + get_time_us()) / 1000000)}
fn mmx::Farmer::update_difficulty
each query_difficulty(elem(@nft_stats).first, elem(@nft_stats).second.server_url)
never break(@nft_stats)
never throw …
exit {did query_difficulty(elem(@nft_stats).first, elem(@nft_stats).second.server_url)}
at query_difficulty(elem(@nft_stats).first, elem(@nft_stats).second.server_url)
fn mmx::TimeLord::compute
never break(loop)
each data($0) ;; {sha256_ni_available()}
each recursive_sha256_ni(data($0), $1) ;; {sha256_ni_available()}
each data($0) ;; !{sha256_ni_available()} ;; {sha256_arm_available()}
each recursive_sha256_arm(data($0), $1) ;; !{sha256_ni_available()} ;; {sha256_arm_available()}
never throw …
value fold($0, ctor(hash_t, ~.bytes), $1)
exit !{sha256_arm_available()} | {ret = $0}
exit !{sha256_ni_available()} | {ret = $0}
exit {ret = fold($0, ctor(hash_t, ~.bytes), $1)} | {sha256_arm_available()} | {sha256_ni_available()}
exit !{sha256_ni_available()} | {did data($0)}
exit !{sha256_ni_available()} | {did recursive_sha256_ni(data($0), $1)}
exit !{sha256_arm_available()} | {did data($0)} | {sha256_ni_available()}
exit !{sha256_arm_available()} | {did recursive_sha256_arm(data($0), $1)} | {sha256_ni_available()}
at recursive_sha256_ni(data($0), $1) ;; {sha256_ni_available()}
at recursive_sha256_arm(data($0), $1) ;; !{sha256_ni_available()} ;; {sha256_arm_available()}
fn mmx::TimeLord::handle
each erase(@infuse, upper_bound(@infuse, $0.start), lower_bound(@infuse, $0.end))
each erase(@pending, upper_bound(@pending, $0.start), lower_bound(@pending, $0.end))
each at(@infuse, $0.start) = $0.infuse
each %TimeLord::vdf_point_t.output = find_value(@history, $0.start) ;; {@peak} | {has(@infuse, $0.start)} ;; !{@peak.num_iters < $0.start} | {has(@infuse, $0.start)} ;; !{has(@infuse, $0.start)} | {@peak} ;; {@peak} ;; !{@peak.num_iters < $0.start} | {@peak} ;; !{@peak.num_iters < $0.start} | !{has(@infuse, $0.start)} ;; !{@peak.num_iters < $0.start} ;; !{$0.infuse == at(@infuse, $0.start)} | !{has(@infuse, $0.start)} ;; !{$0.infuse == at(@infuse, $0.start)} | {@peak} ;; !{$0.infuse == at(@infuse, $0.start)} | !{@peak.num_iters < $0.start} ;; {find_value(@history, $0.start)}
each %TimeLord::vdf_point_t.num_iters = $0.start ;; {@peak} | {has(@infuse, $0.start)} ;; !{@peak.num_iters < $0.start} | {has(@infuse, $0.start)} ;; !{has(@infuse, $0.start)} | {@peak} ;; {@peak} ;; !{@peak.num_iters < $0.start} | {@peak} ;; !{@peak.num_iters < $0.start} | !{has(@infuse, $0.start)} ;; !{@peak.num_iters < $0.start} ;; !{$0.infuse == at(@infuse, $0.start)} | !{has(@infuse, $0.start)} ;; !{$0.infuse == at(@infuse, $0.start)} | {@peak} ;; !{$0.infuse == at(@infuse, $0.start)} | !{@peak.num_iters < $0.start} ;; {find_value(@history, $0.start)}
each @peak = new(TimeLord::vdf_point_t, %TimeLord::vdf_point_t) ;; {@peak} | {has(@infuse, $0.start)} ;; !{@peak.num_iters < $0.start} | {has(@infuse, $0.start)} ;; !{has(@infuse, $0.start)} | {@peak} ;; {@peak} ;; !{@peak.num_iters < $0.start} | {@peak} ;; !{@peak.num_iters < $0.start} | !{has(@infuse, $0.start)} ;; !{@peak.num_iters < $0.start} ;; !{$0.infuse == at(@infuse, $0.start)} | !{has(@infuse, $0.start)} ;; !{$0.infuse == at(@infuse, $0.start)} | {@peak} ;; !{$0.infuse == at(@infuse, $0.start)} | !{@peak.num_iters < $0.start} ;; {find_value(@history, $0.start)}
each @is_reset = true ;; {@peak} | {has(@infuse, $0.start)} ;; !{@peak.num_iters < $0.start} | {has(@infuse, $0.start)} ;; !{has(@infuse, $0.start)} | {@peak} ;; {@peak} ;; !{@peak.num_iters < $0.start} | {@peak} ;; !{@peak.num_iters < $0.start} | !{has(@infuse, $0.start)} ;; !{@peak.num_iters < $0.start} ;; !{$0.infuse == at(@infuse, $0.start)} | !{has(@infuse, $0.start)} ;; !{$0.infuse == at(@infuse, $0.start)} | {@peak} ;; !{$0.infuse == at(@infuse, $0.start)} | !{@peak.num_iters < $0.start} ;; {find_value(@history, $0.start)}
each %TimeLord::vdf_point_t.output = $0.input ;; {$0.input}
each %TimeLord::vdf_point_t.num_iters = $0.start ;; {$0.input}
each @peak = new(TimeLord::vdf_point_t, %TimeLord::vdf_point_t) ;; {$0.input} ;; {@do_run} ;; !{$0.input == find_value(@history, $0.start)} | !{@peak} | {@peak.num_iters < $0.start} ;; !{@is_reset} | !{@peak} | {@peak.num_iters < $0.start}
each @is_reset = true ;; {$0.input} ;; {@do_run} ;; !{$0.input == find_value(@history, $0.start)} | !{@peak} | {@peak.num_iters < $0.start} ;; !{@is_reset} | !{@peak} | {@peak.num_iters < $0.start}
each start_vdf(%TimeLord::vdf_point_t) ;; {$0.input} ;; !{@do_run}
each @peak_iters = 0 ;; {@is_reset}
each at(@pending, $0.end) = $0 ;; {@peak_iters < $0.end}
each add_task(bind(&update, this)) ;; {@peak} ;; !{@peak.num_iters < $0.end}
never throw …
exit {did at(@infuse, $0.start) = $0.infuse}
exit {did erase(@infuse, upper_bound(@infuse, $0.start), lower_bound(@infuse, $0.end))}
exit {did erase(@pending, upper_bound(@pending, $0.start), lower_bound(@pending, $0.end))}
exit !{$0.input} | {did %TimeLord::vdf_point_t.num_iters = $0.start}
exit !{$0.input} | {did %TimeLord::vdf_point_t.output = $0.input}
exit !{@is_reset} | {did @peak_iters = 0}
exit !{@peak_iters < $0.end} | {did at(@pending, $0.end) = $0}
exit !{$0.input} | {@do_run} | {did start_vdf(%TimeLord::vdf_point_t)}
exit !{@peak} | {@peak.num_iters < $0.end} | {did add_task(bind(&update, this))}
exit !{$0.input} | !{@do_run} | !{@peak.num_iters < $0.start} | {did @is_reset = true}
exit !{$0.input} | !{@do_run} | !{@peak.num_iters < $0.start} | {did @peak = new(TimeLord::vdf_point_t, %TimeLord::vdf_point_t)}
exit !{$0.input} | !{@do_run} | {@peak} | {did @is_reset = true}
exit !{$0.input} | !{@do_run} | {@peak} | {did @peak = new(TimeLord::vdf_point_t, %TimeLord::vdf_point_t)}
exit !{$0.input} | !{@do_run} | {$0.input == find_value(@history, $0.start)} | {@is_reset} | {did @is_reset = true}
exit !{$0.input} | !{@do_run} | {$0.input == find_value(@history, $0.start)} | {@is_reset} | {did @peak = new(TimeLord::vdf_point_t, %TimeLord::vdf_point_t)}
at lock_guard(@mutex)
at erase(@infuse, upper_bound(@infuse, $0.start), lower_bound(@infuse, $0.end))
at erase(@pending, upper_bound(@pending, $0.start), lower_bound(@pending, $0.end))
at at(@infuse, $0.start) = $0.infuse
at %TimeLord::vdf_point_t.output = find_value(@history, $0.start) ;; {@peak} | {has(@infuse, $0.start)} ;; !{@peak.num_iters < $0.start} | {has(@infuse, $0.start)} ;; !{has(@infuse, $0.start)} | {@peak} ;; {@peak} ;; !{@peak.num_iters < $0.start} | {@peak} ;; !{@peak.num_iters < $0.start} | !{has(@infuse, $0.start)} ;; !{@peak.num_iters < $0.start} ;; !{$0.infuse == at(@infuse, $0.start)} | !{has(@infuse, $0.start)} ;; !{$0.infuse == at(@infuse, $0.start)} | {@peak} ;; !{$0.infuse == at(@infuse, $0.start)} | !{@peak.num_iters < $0.start} ;; {find_value(@history, $0.start)}
at %TimeLord::vdf_point_t.num_iters = $0.start
at @peak = new(TimeLord::vdf_point_t, %TimeLord::vdf_point_t)
at @is_reset = true
at %TimeLord::vdf_point_t.output = $0.input ;; {$0.input}
at start_vdf(%TimeLord::vdf_point_t) ;; {$0.input} ;; !{@do_run}
at @peak_iters = 0 ;; {@is_reset}
at at(@pending, $0.end) = $0 ;; {@peak_iters < $0.end}
at add_task(bind(&update, this)) ;; {@peak} ;; !{@peak.num_iters < $0.end}
fn mmx::TimeLord::main
each get_all_accounts(%WalletClient) ;; !{@reward_addr}
each @reward_addr = elem(get_all_accounts(%WalletClient)).address ;; !{@reward_addr} ;; {elem(get_all_accounts(%WalletClient)).address}
each open(%File, "rb") ;; {exists(%File)}
each read_generic(%File.in, @timelord_sk, 0, 0) ;; {exists(%File)}
each close(%File) ;; {exists(%File)}
each @timelord_sk = ctor(skey_t, random()) ;; {@timelord_sk == ctor(skey_t)}
each open(%File, "wb") ;; {@timelord_sk == ctor(skey_t)}
each write_generic(%File.out, ctor(skey_t, random()), 0, 0) ;; {@timelord_sk == ctor(skey_t)}
each close(%File) ;; {@timelord_sk == ctor(skey_t)}
each @timelord_key = @timelord_sk
each set_timer_millis(10000, bind(&print_info, this))
each set_timer_millis(2000, lambda)
each @peak_iters = 0
each @vdf_thread = ctor(thread, &vdf_loop, this)
each main()
each notify_all(@vdf_signal)
each join(ctor(thread, &vdf_loop, this))
at ctor:File((@storage_path ++ "timelord_sk.dat"))
raise !{@reward_addr}
exit {did @timelord_key = @timelord_sk}
exit {did @vdf_thread = ctor(thread, &vdf_loop, this)}
exit {did join(ctor(thread, &vdf_loop, this))}
exit {did main()}
exit {did notify_all(@vdf_signal)}
exit {did set_timer_millis(10000, bind(&print_info, this))}
exit {did set_timer_millis(2000, lambda)}
exit !{@timelord_sk == ctor(skey_t)} | {did @timelord_sk = ctor(skey_t, random())}
at get_all_accounts(%WalletClient) ;; !{@reward_addr}
at @reward_addr = elem(get_all_accounts(%WalletClient)).address ;; !{@reward_addr} ;; {elem(get_all_accounts(%WalletClient)).address}
never break(get_all_accounts(%WalletClient)) ;; !{@reward_addr} ;; {elem(get_all_accounts(%WalletClient)).address}
at open(%File, "rb") ;; {exists(%File)}
at read_generic(%File.in, @timelord_sk, 0, 0) ;; {exists(%File)}
at close(%File)
at @timelord_sk = ctor(skey_t, random()) ;; {@timelord_sk == ctor(skey_t)}
at open(%File, "wb") ;; {@timelord_sk == ctor(skey_t)}
at write_generic(%File.out, ctor(skey_t, random()), 0, 0) ;; {@timelord_sk == ctor(skey_t)}
at @timelord_key = @timelord_sk
at set_timer_millis(10000, bind(&print_info, this))
at set_timer_millis(2000, lambda)
at @peak_iters = 0
at @vdf_thread = ctor(thread, &vdf_loop, this)
at main()
at notify_all(@vdf_signal)
at join(ctor(thread, &vdf_loop, this))
fn mmx::TimeLord::start_vdf
each @do_run = true ;; !{@do_run}
each @is_reset = true ;; !{@do_run}
each @peak = new(TimeLord::vdf_point_t, $0) ;; !{@do_run}
each notify_all(@vdf_signal) ;; !{@do_run}
never throw …
exit {@do_run} | {did @do_run = true}
exit {@do_run} | {did @is_reset = true}
exit {@do_run} | {did @peak = new(TimeLord::vdf_point_t, $0)}
exit {@do_run} | {did notify_all(@vdf_signal)}
at @do_run = true ;; !{@do_run}
at @is_reset = true ;; !{@do_run}
at @peak = new(TimeLord::vdf_point_t, $0) ;; !{@do_run}
at notify_all(@vdf_signal) ;; !{@do_run}
fn mmx::TimeLord::stop_vdf
each @do_run = false
each @peak = 0
each @peak_iters = 0
each clear(@history)
each clear(@infuse)
never throw …
exit {did @do_run = false}
exit {did @peak = 0}
exit {did @peak_iters = 0}
exit {did clear(@history)}
exit {did clear(@infuse)}
at lock_guard(@mutex)
at @do_run = false
at @peak = 0
at @peak_iters = 0
at clear(@history)
at clear(@infuse)
fn mmx::TimeLord::update
never create() ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
each erase(@pending, begin(@pending), lower_bound(@pending, begin(@history).first)) ;; !{empty(@history)}
each %shared_ptr<ProofOfTime>.vdf_height = fold(begin(@pending), erase(@pending, ~)).second.vdf_height ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
each %shared_ptr<ProofOfTime>.start = fold(begin(@pending), erase(@pending, ~)).second.start ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
each %shared_ptr<ProofOfTime>.num_iters = (-fold(begin(@pending), erase(@pending, ~)).second.start + fold(begin(@pending), erase(@pending, ~)).second.end) ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
each %shared_ptr<ProofOfTime>.segment_size = u32(@segment_iters) ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
each %shared_ptr<ProofOfTime>.input = at(@history, fold(begin(@pending), erase(@pending, ~)).second.start) ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
each %shared_ptr<ProofOfTime>.prev = fold(begin(@pending), erase(@pending, ~)).second.infuse ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
each %shared_ptr<ProofOfTime>.reward_addr = ite({@reward_addr}, @reward_addr, ctor(addr_t)) ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
each %shared_ptr<ProofOfTime>.timelord_key = @timelord_key ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
each push_back(%shared_ptr<ProofOfTime>.segments, fold((find(@history, fold(begin(@pending), erase(@pending, ~)).second.start) + 1), (~ + 1)).second) ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} ;; !{(find(@history, fold(begin(@pending), erase(@pending, ~)).second.end) + 1) == fold((find(@history, fold(begin(@pending), erase(@pending, ~)).second.start) + 1), (~ + 1))}
each push_back(%vector<shared_ptr<ProofOfTime>>, %shared_ptr<ProofOfTime>) ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
each @peak_iters = fold(begin(@pending), erase(@pending, ~)).second.end ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
each erase(@pending, fold(begin(@pending), erase(@pending, ~))) ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)}
each erase(@infuse, begin(@infuse)) ;; {1000 < size(@infuse)}
each erase(@history, begin(@history)) ;; {@max_history < size(@history)}
each unlock(lock_guard(@mutex))
each elem(%vector<shared_ptr<ProofOfTime>>).hash = calc_hash(elem(%vector<shared_ptr<ProofOfTime>>))
each elem(%vector<shared_ptr<ProofOfTime>>).timelord_sig = sign(@timelord_sk, elem(%vector<shared_ptr<ProofOfTime>>).hash)
each elem(%vector<shared_ptr<ProofOfTime>>).content_hash = calc_content_hash(elem(%vector<shared_ptr<ProofOfTime>>))
each publish(elem(%vector<shared_ptr<ProofOfTime>>), @output_proofs, 0)
never break(%vector<shared_ptr<ProofOfTime>>)
never throw …
value fold((find(@history, fold(begin(@pending), erase(@pending, ~)).second.start) + 1), (~ + 1))
exit !{1000 < size(@infuse)}
exit !{@max_history < size(@history)}
exit {did elem(%vector<shared_ptr<ProofOfTime>>).content_hash = calc_content_hash(elem(%vector<shared_ptr<ProofOfTime>>))}
exit {did elem(%vector<shared_ptr<ProofOfTime>>).hash = calc_hash(elem(%vector<shared_ptr<ProofOfTime>>))}
exit {did elem(%vector<shared_ptr<ProofOfTime>>).timelord_sig = sign(@timelord_sk, elem(%vector<shared_ptr<ProofOfTime>>).hash)}
exit {did publish(elem(%vector<shared_ptr<ProofOfTime>>), @output_proofs, 0)}
exit {did unlock(lock_guard(@mutex))}
exit !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} | {did erase(@pending, fold(begin(@pending), erase(@pending, ~)))}
exit !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} | {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)}
exit !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} | {did erase(@pending, fold(begin(@pending), erase(@pending, ~)))}
exit !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} | {end(@pending) == fold(begin(@pending), erase(@pending, ~))}
exit {did erase(@pending, begin(@pending), lower_bound(@pending, begin(@history).first))} | {empty(@history)}
exit !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {(find(@history, fold(begin(@pending), erase(@pending, ~)).second.end) + 1) == fold((find(@history, fold(begin(@pending), erase(@pending, ~)).second.start) + 1), (~ + 1))}
exit !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did %shared_ptr<ProofOfTime>.input = at(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
exit !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did %shared_ptr<ProofOfTime>.num_iters = (-fold(begin(@pending), erase(@pending, ~)).second.start + fold(begin(@pending), erase(@pending, ~)).second.end)}
exit !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did %shared_ptr<ProofOfTime>.prev = fold(begin(@pending), erase(@pending, ~)).second.infuse}
exit !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did %shared_ptr<ProofOfTime>.reward_addr = ite({@reward_addr}, @reward_addr, ctor(addr_t))}
exit !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did %shared_ptr<ProofOfTime>.segment_size = u32(@segment_iters)}
exit !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did %shared_ptr<ProofOfTime>.start = fold(begin(@pending), erase(@pending, ~)).second.start}
exit !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did %shared_ptr<ProofOfTime>.timelord_key = @timelord_key}
exit !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did %shared_ptr<ProofOfTime>.vdf_height = fold(begin(@pending), erase(@pending, ~)).second.vdf_height}
exit !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did @peak_iters = fold(begin(@pending), erase(@pending, ~)).second.end}
exit !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did push_back(%shared_ptr<ProofOfTime>.segments, fold((find(@history, fold(begin(@pending), erase(@pending, ~)).second.start) + 1), (~ + 1)).second)}
exit !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did push_back(%vector<shared_ptr<ProofOfTime>>, %shared_ptr<ProofOfTime>)}
exit !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {(find(@history, fold(begin(@pending), erase(@pending, ~)).second.end) + 1) == fold((find(@history, fold(begin(@pending), erase(@pending, ~)).second.start) + 1), (~ + 1))}
exit !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did %shared_ptr<ProofOfTime>.input = at(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
exit !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did %shared_ptr<ProofOfTime>.num_iters = (-fold(begin(@pending), erase(@pending, ~)).second.start + fold(begin(@pending), erase(@pending, ~)).second.end)}
exit !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did %shared_ptr<ProofOfTime>.prev = fold(begin(@pending), erase(@pending, ~)).second.infuse}
exit !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did %shared_ptr<ProofOfTime>.reward_addr = ite({@reward_addr}, @reward_addr, ctor(addr_t))}
exit !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did %shared_ptr<ProofOfTime>.segment_size = u32(@segment_iters)}
exit !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did %shared_ptr<ProofOfTime>.start = fold(begin(@pending), erase(@pending, ~)).second.start}
exit !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did %shared_ptr<ProofOfTime>.timelord_key = @timelord_key}
exit !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did %shared_ptr<ProofOfTime>.vdf_height = fold(begin(@pending), erase(@pending, ~)).second.vdf_height}
exit !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did @peak_iters = fold(begin(@pending), erase(@pending, ~)).second.end}
exit !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did push_back(%shared_ptr<ProofOfTime>.segments, fold((find(@history, fold(begin(@pending), erase(@pending, ~)).second.start) + 1), (~ + 1)).second)}
exit !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} | !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} | {did push_back(%vector<shared_ptr<ProofOfTime>>, %shared_ptr<ProofOfTime>)}
exit {did break(loop)} | {end(@pending) == fold(begin(@pending), erase(@pending, ~))} | {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)}
at lock_guard(@mutex)
at erase(@pending, begin(@pending), lower_bound(@pending, begin(@history).first)) ;; !{empty(@history)}
at %shared_ptr<ProofOfTime>.vdf_height = fold(begin(@pending), erase(@pending, ~)).second.vdf_height ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
at %shared_ptr<ProofOfTime>.start = fold(begin(@pending), erase(@pending, ~)).second.start ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
at %shared_ptr<ProofOfTime>.num_iters = (-fold(begin(@pending), erase(@pending, ~)).second.start + fold(begin(@pending), erase(@pending, ~)).second.end) ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
at %shared_ptr<ProofOfTime>.segment_size = u32(@segment_iters) ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
at %shared_ptr<ProofOfTime>.input = at(@history, fold(begin(@pending), erase(@pending, ~)).second.start) ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
at %shared_ptr<ProofOfTime>.prev = fold(begin(@pending), erase(@pending, ~)).second.infuse ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
at %shared_ptr<ProofOfTime>.reward_addr = ite({@reward_addr}, @reward_addr, ctor(addr_t)) ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
at %shared_ptr<ProofOfTime>.timelord_key = @timelord_key ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
at reserve(%shared_ptr<ProofOfTime>.segments, 1024) ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
at push_back(%shared_ptr<ProofOfTime>.segments, fold((find(@history, fold(begin(@pending), erase(@pending, ~)).second.start) + 1), (~ + 1)).second) ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)} ;; !{(find(@history, fold(begin(@pending), erase(@pending, ~)).second.end) + 1) == fold((find(@history, fold(begin(@pending), erase(@pending, ~)).second.start) + 1), (~ + 1))}
at push_back(%vector<shared_ptr<ProofOfTime>>, %shared_ptr<ProofOfTime>) ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
at @peak_iters = fold(begin(@pending), erase(@pending, ~)).second.end ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.start)}
at erase(@pending, fold(begin(@pending), erase(@pending, ~))) ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; {has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)}
never break(loop) ;; !{end(@pending) == fold(begin(@pending), erase(@pending, ~))} ;; !{has(@history, fold(begin(@pending), erase(@pending, ~)).second.end)}
at erase(@infuse, begin(@infuse)) ;; {1000 < size(@infuse)}
at erase(@history, begin(@history)) ;; {@max_history < size(@history)}
at unlock(lock_guard(@mutex))
at elem(%vector<shared_ptr<ProofOfTime>>).hash = calc_hash(elem(%vector<shared_ptr<ProofOfTime>>))
at elem(%vector<shared_ptr<ProofOfTime>>).timelord_sig = sign(@timelord_sk, elem(%vector<shared_ptr<ProofOfTime>>).hash)
at elem(%vector<shared_ptr<ProofOfTime>>).content_hash = calc_content_hash(elem(%vector<shared_ptr<ProofOfTime>>))
at publish(elem(%vector<shared_ptr<ProofOfTime>>), @output_proofs, 0)
fn mmx::TimeLord::vdf_loop
never break(loop)
at wait(@vdf_signal, fold(lock_guard(@mutex), out(wait‥))) ;; {vnx_do_run()} ;; !{@do_run}
each wait(@vdf_signal, fold(lock_guard(@mutex), out(wait‥))) ;; {vnx_do_run()} ;; !{@do_run}
each %TimeLord::vdf_point_t = @peak ;; {vnx_do_run()} ;; {@is_reset}
each clear(@history) ;; {vnx_do_run()} ;; {@is_reset}
each @is_reset = false ;; {vnx_do_run()} ;; {@is_reset}
each @peak = new(TimeLord::vdf_point_t) ;; {vnx_do_run()} ;; !{@is_reset} ;; !{@peak}
each @peak = %TimeLord::vdf_point_t ;; {vnx_do_run()} ;; !{@is_reset}
each at(@history, %TimeLord::vdf_point_t.num_iters) = %TimeLord::vdf_point_t.output ;; {vnx_do_run()}
each add_task(bind(&update, this)) ;; {vnx_do_run()} ;; {has(@pending, %TimeLord::vdf_point_t.num_iters)}
each %TimeLord::vdf_point_t.output = ctor(hash_t, (%TimeLord::vdf_point_t.output ++ at(@infuse, %TimeLord::vdf_point_t.num_iters))) ;; {vnx_do_run()} ;; {has(@infuse, %TimeLord::vdf_point_t.num_iters)}
each %TimeLord::vdf_point_t.output = ctor(hash_t, (ctor(hash_t, (%TimeLord::vdf_point_t.output ++ at(@infuse, %TimeLord::vdf_point_t.num_iters))) ++ ite({@reward_addr}, @reward_addr, ctor(addr_t)))) ;; {vnx_do_run()} ;; {has(@infuse, %TimeLord::vdf_point_t.num_iters)}
each %TimeLord::vdf_point_t.output = compute(%TimeLord::vdf_point_t.output, @segment_iters) ;; {vnx_do_run()}
each %TimeLord::vdf_point_t.num_iters = (%TimeLord::vdf_point_t.num_iters + @segment_iters) ;; {vnx_do_run()}
never throw …
value fold(lock_guard(@mutex), out(wait#v))
exit !{vnx_do_run()}
at lock_guard(@mutex) ;; {vnx_do_run()}
at wait(@vdf_signal, fold(lock_guard(@mutex), out(wait‥))) ;; {vnx_do_run()} ;; {vnx_do_run()} ;; !{@do_run}
at %TimeLord::vdf_point_t = @peak ;; {vnx_do_run()} ;; {@is_reset} ;; {@do_run}
at clear(@history) ;; {vnx_do_run()} ;; {@is_reset} ;; {@do_run}
at @is_reset = false ;; {vnx_do_run()} ;; {@is_reset} ;; {@do_run}
at @peak = new(TimeLord::vdf_point_t) ;; {vnx_do_run()} ;; !{@is_reset} ;; !{@peak} ;; {@do_run}
at @peak = %TimeLord::vdf_point_t ;; {vnx_do_run()} ;; !{@is_reset} ;; {@do_run}
at at(@history, %TimeLord::vdf_point_t.num_iters) = %TimeLord::vdf_point_t.output ;; {vnx_do_run()} ;; {@do_run}
at add_task(bind(&update, this)) ;; {vnx_do_run()} ;; {has(@pending, %TimeLord::vdf_point_t.num_iters)} ;; {@do_run}
at %TimeLord::vdf_point_t.output = ctor(hash_t, (%TimeLord::vdf_point_t.output ++ at(@infuse, %TimeLord::vdf_point_t.num_iters))) ;; {vnx_do_run()} ;; {has(@infuse, %TimeLord::vdf_point_t.num_iters)} ;; {@do_run}
at %TimeLord::vdf_point_t.output = ctor(hash_t, (ctor(hash_t, (%TimeLord::vdf_point_t.output ++ at(@infuse, %TimeLord::vdf_point_t.num_iters))) ++ ite({@reward_addr}, @reward_addr, ctor(addr_t)))) ;; {vnx_do_run()} ;; {has(@infuse, %TimeLord::vdf_point_t.num_iters)} ;; {@do_run}
at %TimeLord::vdf_point_t.output = compute(%TimeLord::vdf_point_t.output, @segment_iters) ;; {vnx_do_run()} ;; {@do_run}
at %TimeLord::vdf_point_t.num_iters = (%TimeLord::vdf_point_t.num_iters + @segment_iters) ;; {vnx_do_run()} ;; {@do_run}
