tus src/Harvester.cpp
fn mmx::Harvester::add_plot_dir
each insert(to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs")), $0)
each at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs") = to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs"))
each write_config((@vnx_name ++ ".plot_dirs"), to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs")))
each write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json")))
each insert(@plot_dirs, $0)
each reload()
never throw …
exit {did at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs") = to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs"))}
exit {did insert(@plot_dirs, $0)}
exit {did insert(to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs")), $0)}
exit {did reload()}
exit {did write_config((@vnx_name ++ ".plot_dirs"), to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs")))}
exit {did write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json")))}
at insert(to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs")), $0)
at at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs") = to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs"))
at write_config((@vnx_name ++ ".plot_dirs"), to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs")))
at write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json")))
at insert(@plot_dirs, $0)
at reload()
fn mmx::Harvester::check_queue
never break(loop)
each erase(@lookup_queue, fold(begin(@lookup_queue), ite({(@params.block_interval_ms * @params.challenge_delay) < (-~.second.recv_time_ms + get_time_ms())}, erase(@lookup_queue, ~), (~ + 1)))) ;; !{end(@lookup_queue) == fold(begin(@lookup_queue), ite({(@params.block_interval_ms * @params.challenge_delay) < (-~.second.recv_time_ms + get_time_ms())}, erase(@lookup_queue, ~), (~ + 1)))} ;; {(@params.block_interval_ms * @params.challenge_delay) < (-fold(begin(@lookup_queue), ite({(@params.block_interval_ms * @params.challenge_delay) < (-~.second.recv_time_ms + get_time_ms())}, erase(@lookup_queue, ~), (~ + 1))).second.recv_time_ms + get_time_ms())}
each lookup_task((end(@lookup_queue) + -1).second.request, (end(@lookup_queue) + -1).second.recv_time_ms) ;; !{empty(@lookup_queue)}
each erase(@lookup_queue, (end(@lookup_queue) + -1)) ;; !{empty(@lookup_queue)}
never throw …
value fold(begin(@lookup_queue), ite({(@params.block_interval_ms * @params.challenge_delay) < (-~.second.recv_time_ms + get_time_ms())}, erase(@lookup_queue, ~), (~ + 1)))
exit {end(@lookup_queue) == fold(begin(@lookup_queue), ite({(@params.block_interval_ms * @params.challenge_delay) < (-~.second.recv_time_ms + get_time_ms())}, erase(@lookup_queue, ~), (~ + 1)))}
exit !{(@params.block_interval_ms * @params.challenge_delay) < (-fold(begin(@lookup_queue), ite({(@params.block_interval_ms * @params.challenge_delay) < (-~.second.recv_time_ms + get_time_ms())}, erase(@lookup_queue, ~), (~ + 1))).second.recv_time_ms + get_time_ms())} | {did erase(@lookup_queue, fold(begin(@lookup_queue), ite({(@params.block_interval_ms * @params.challenge_delay) < (-~.second.recv_time_ms + get_time_ms())}, erase(@lookup_queue, ~), (~ + 1))))}
exit {did end(@lookup_queue) = (end(@lookup_queue) + -1)} | {empty(@lookup_queue)}
exit {did erase(@lookup_queue, (end(@lookup_queue) + -1))} | {empty(@lookup_queue)}
exit {did lookup_task((end(@lookup_queue) + -1).second.request, (end(@lookup_queue) + -1).second.recv_time_ms)} | {empty(@lookup_queue)}
at erase(@lookup_queue, fold(begin(@lookup_queue), ite({(@params.block_interval_ms * @params.challenge_delay) < (-~.second.recv_time_ms + get_time_ms())}, erase(@lookup_queue, ~), (~ + 1)))) ;; !{end(@lookup_queue) == fold(begin(@lookup_queue), ite({(@params.block_interval_ms * @params.challenge_delay) < (-~.second.recv_time_ms + get_time_ms())}, erase(@lookup_queue, ~), (~ + 1)))} ;; {(@params.block_interval_ms * @params.challenge_delay) < (-fold(begin(@lookup_queue), ite({(@params.block_interval_ms * @params.challenge_delay) < (-~.second.recv_time_ms + get_time_ms())}, erase(@lookup_queue, ~), (~ + 1))).second.recv_time_ms + get_time_ms())}
at end(@lookup_queue) = (end(@lookup_queue) + -1) ;; !{empty(@lookup_queue)}
at lookup_task((end(@lookup_queue) + -1).second.request, (end(@lookup_queue) + -1).second.recv_time_ms) ;; !{empty(@lookup_queue)}
at erase(@lookup_queue, (end(@lookup_queue) + -1)) ;; !{empty(@lookup_queue)}
fn mmx::Harvester::fetch_full_proof
raise !{get_full_proof($0, $1).valid}
exit {get_full_proof($0, $1).valid}
exit {ret = get_full_proof($0, $1).proof}
fn mmx::Harvester::find_plot_dirs
each insert($1, elem($0)) ;; !{@max_recursion < $2} ;; {elem(files(%Directory))} ;; {".plot" == get_extension(elem(files(%Directory)))}
each insert(%set<string,less<string>,allocator<string>>, get_path(elem(directories(%Directory)))) ;; !{@max_recursion < $2} ;; !{has($1, get_path(elem(directories(%Directory))))} ;; !{has(@dir_blacklist, get_name(elem(directories(%Directory))))}
each find_plot_dirs(%set<string,less<string>,allocator<string>>, $1, ($2 + 1)) ;; !{@max_recursion < $2} ;; !{empty(%set<string,less<string>,allocator<string>>)}
never break(directories(%Directory))
never break($0)
never throw …
at ctor:Directory(elem($0))
exit !{@max_recursion < $2} | {out $1 = $1}
exit !{empty(%set<string,less<string>,allocator<string>>)} | {out $1 = $1}
exit {@max_recursion < $2} | {empty(%set<string,less<string>,allocator<string>>)} | {out $1 = out(find_plot_dirs‥, %set<string,less<string>,allocator<string>>, ($2 + 1))}
exit {@max_recursion < $2} | {did find_plot_dirs(%set<string,less<string>,allocator<string>>, $1, ($2 + 1))} | {empty(%set<string,less<string>,allocator<string>>)}
at insert($1, elem($0)) ;; !{@max_recursion < $2} ;; {elem(files(%Directory))} ;; {".plot" == get_extension(elem(files(%Directory)))}
never break(files(%Directory)) ;; !{@max_recursion < $2} ;; {elem(files(%Directory))} ;; {".plot" == get_extension(elem(files(%Directory)))}
at insert(%set<string,less<string>,allocator<string>>, get_path(elem(directories(%Directory)))) ;; !{@max_recursion < $2} ;; !{has($1, get_path(elem(directories(%Directory))))} ;; !{has(@dir_blacklist, get_name(elem(directories(%Directory))))}
at find_plot_dirs(%set<string,less<string>,allocator<string>>, $1, ($2 + 1)) ;; !{@max_recursion < $2} ;; !{empty(%set<string,less<string>,allocator<string>>)}
fn mmx::Harvester::get_farm_info
each %shared_ptr<FarmInfo>.harvester = @my_name
each %shared_ptr<FarmInfo>.harvester_id = @harvester_id
each %shared_ptr<FarmInfo>.plot_dirs = ctor(vector<string,allocator<string>>, begin(@plot_dirs), end(@plot_dirs))
each %shared_ptr<FarmInfo>.total_bytes = @total_bytes
each %shared_ptr<FarmInfo>.total_bytes_effective = @total_bytes_effective
each at(%shared_ptr<FarmInfo>.plot_count, u8(get_ksize(elem(@plot_map).second))) = (at(%shared_ptr<FarmInfo>.plot_count, u8(get_ksize(elem(@plot_map).second))) + 1) ;; {elem(@plot_map).second}
each at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).contract = elem(@plot_nfts).second.address
each at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).name = elem(@plot_nfts).second.name
each at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).is_plot_nft = true
each at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).server_url = elem(@plot_nfts).second.server_url ;; {elem(@plot_nfts).second.is_locked}
each at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).pool_target = elem(@plot_nfts).second.target ;; {elem(@plot_nfts).second.is_locked}
each at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).partial_diff = at(@partial_diff, elem(@plot_nfts).second.address) ;; {has(@partial_diff, elem(@plot_nfts).second.address)}
each at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).plot_count = at(@plot_contract_set, elem(@plot_nfts).second.address) ;; {has(@plot_contract_set, elem(@plot_nfts).second.address)}
each at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_contract_set).first).contract = elem(@plot_contract_set).first ;; !{has(@plot_nfts, elem(@plot_contract_set).first)}
each at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_contract_set).first).plot_count = elem(@plot_contract_set).second ;; !{has(@plot_nfts, elem(@plot_contract_set).first)}
never break(@plot_map)
never break(@plot_nfts)
never break(@plot_contract_set)
never throw …
exit {did %shared_ptr<FarmInfo>.harvester = @my_name}
exit {did %shared_ptr<FarmInfo>.harvester_id = @harvester_id}
exit {did %shared_ptr<FarmInfo>.plot_dirs = ctor(vector<string,allocator<string>>, begin(@plot_dirs), end(@plot_dirs))}
exit {did %shared_ptr<FarmInfo>.total_bytes = @total_bytes}
exit {did %shared_ptr<FarmInfo>.total_bytes_effective = @total_bytes_effective}
exit {did at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).contract = elem(@plot_nfts).second.address}
exit {did at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).is_plot_nft = true}
exit {did at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).name = elem(@plot_nfts).second.name}
exit {ret = %shared_ptr<FarmInfo>}
exit !{elem(@plot_map).second} | {did at(%shared_ptr<FarmInfo>.plot_count, u8(get_ksize(elem(@plot_map).second))) = (at(%shared_ptr<FarmInfo>.plot_count, u8(get_ksize(elem(@plot_map).second))) + 1)}
exit !{elem(@plot_nfts).second.is_locked} | {did at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).pool_target = elem(@plot_nfts).second.target}
exit !{elem(@plot_nfts).second.is_locked} | {did at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).server_url = elem(@plot_nfts).second.server_url}
exit !{has(@partial_diff, elem(@plot_nfts).second.address)} | {did at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).partial_diff = at(@partial_diff, elem(@plot_nfts).second.address)}
exit !{has(@plot_contract_set, elem(@plot_nfts).second.address)} | {did at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).plot_count = at(@plot_contract_set, elem(@plot_nfts).second.address)}
exit {did at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_contract_set).first).contract = elem(@plot_contract_set).first} | {has(@plot_nfts, elem(@plot_contract_set).first)}
exit {did at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_contract_set).first).plot_count = elem(@plot_contract_set).second} | {has(@plot_nfts, elem(@plot_contract_set).first)}
at %shared_ptr<FarmInfo>.harvester = @my_name
at %shared_ptr<FarmInfo>.harvester_id = @harvester_id
at %shared_ptr<FarmInfo>.plot_dirs = ctor(vector<string,allocator<string>>, begin(@plot_dirs), end(@plot_dirs))
at %shared_ptr<FarmInfo>.total_bytes = @total_bytes
at %shared_ptr<FarmInfo>.total_bytes_effective = @total_bytes_effective
at at(%shared_ptr<FarmInfo>.plot_count, u8(get_ksize(elem(@plot_map).second))) = (at(%shared_ptr<FarmInfo>.plot_count, u8(get_ksize(elem(@plot_map).second))) + 1) ;; {elem(@plot_map).second}
at at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).contract = elem(@plot_nfts).second.address
at at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).name = elem(@plot_nfts).second.name
at at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).is_plot_nft = true
at at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).server_url = elem(@plot_nfts).second.server_url ;; {elem(@plot_nfts).second.is_locked}
at at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).pool_target = elem(@plot_nfts).second.target ;; {elem(@plot_nfts).second.is_locked}
at at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).partial_diff = at(@partial_diff, elem(@plot_nfts).second.address) ;; {has(@partial_diff, elem(@plot_nfts).second.address)}
at at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_nfts).second.address).plot_count = at(@plot_contract_set, elem(@plot_nfts).second.address) ;; {has(@plot_contract_set, elem(@plot_nfts).second.address)}
at at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_contract_set).first).contract = elem(@plot_contract_set).first ;; !{has(@plot_nfts, elem(@plot_contract_set).first)}
at at(%shared_ptr<FarmInfo>.pool_info, elem(@plot_contract_set).first).plot_count = elem(@plot_contract_set).second ;; !{has(@plot_nfts, elem(@plot_contract_set).first)}
fn mmx::Harvester::get_total_bytes
never throw …
exit {ret = @total_bytes}
fn mmx::Harvester::handle
each insert(@already_checked, $0.challenge) ;; {@is_ready}
each at(@lookup_queue, $0.vdf_height).request = $0 ;; {@is_ready} ;; {inserted(@already_checked, $0.challenge)} ;; !{$0.challenge == at(@lookup_queue, $0.vdf_height).request.challenge} | !{at(@lookup_queue, $0.vdf_height).request}
each at(@lookup_queue, $0.vdf_height).recv_time_ms = (@vnx_sample.recv_time / 1000) ;; {@is_ready} ;; {inserted(@already_checked, $0.challenge)} ;; !{$0.challenge == at(@lookup_queue, $0.vdf_height).request.challenge} | !{at(@lookup_queue, $0.vdf_height).request}
each set_millis(@lookup_timer, 10) ;; {@is_ready} ;; {inserted(@already_checked, $0.challenge)} ;; !{$0.challenge == at(@lookup_queue, $0.vdf_height).request.challenge} | !{at(@lookup_queue, $0.vdf_height).request}
never throw …
exit !{@is_ready} | {did insert(@already_checked, $0.challenge)}
exit !{@is_ready} | !{inserted(@already_checked, $0.challenge)} | {$0.challenge == at(@lookup_queue, $0.vdf_height).request.challenge} | {did at(@lookup_queue, $0.vdf_height).recv_time_ms = (@vnx_sample.recv_time / 1000)}
exit !{@is_ready} | !{inserted(@already_checked, $0.challenge)} | {$0.challenge == at(@lookup_queue, $0.vdf_height).request.challenge} | {did at(@lookup_queue, $0.vdf_height).request = $0}
exit !{@is_ready} | !{inserted(@already_checked, $0.challenge)} | {$0.challenge == at(@lookup_queue, $0.vdf_height).request.challenge} | {did set_millis(@lookup_timer, 10)}
exit !{@is_ready} | !{inserted(@already_checked, $0.challenge)} | {at(@lookup_queue, $0.vdf_height).request} | {did at(@lookup_queue, $0.vdf_height).recv_time_ms = (@vnx_sample.recv_time / 1000)}
exit !{@is_ready} | !{inserted(@already_checked, $0.challenge)} | {at(@lookup_queue, $0.vdf_height).request} | {did at(@lookup_queue, $0.vdf_height).request = $0}
exit !{@is_ready} | !{inserted(@already_checked, $0.challenge)} | {at(@lookup_queue, $0.vdf_height).request} | {did set_millis(@lookup_timer, 10)}
at insert(@already_checked, $0.challenge) ;; {@is_ready}
at at(@lookup_queue, $0.vdf_height).request = $0 ;; {@is_ready} ;; {inserted(@already_checked, $0.challenge)} ;; !{$0.challenge == at(@lookup_queue, $0.vdf_height).request.challenge} | !{at(@lookup_queue, $0.vdf_height).request}
at at(@lookup_queue, $0.vdf_height).recv_time_ms = (@vnx_sample.recv_time / 1000) ;; {@is_ready} ;; {inserted(@already_checked, $0.challenge)} ;; !{$0.challenge == at(@lookup_queue, $0.vdf_height).request.challenge} | !{at(@lookup_queue, $0.vdf_height).request}
at set_millis(@lookup_timer, 10) ;; {@is_ready} ;; {inserted(@already_checked, $0.challenge)} ;; !{$0.challenge == at(@lookup_queue, $0.vdf_height).request.challenge} | !{at(@lookup_queue, $0.vdf_height).request}
fn mmx::Harvester::lookup_task
never break(loop)
never break(@plot_nfts)
each %shared_ptr<lookup_job_t>.total_plots = size(@id_map)
each %shared_ptr<lookup_job_t>.num_left = size(@id_map)
each %shared_ptr<lookup_job_t>.time_begin = get_time_ms()
each at(%shared_ptr<lookup_job_t>.pool_config, elem(@plot_nfts).second.address) = init(pool_conf_t, elem(@plot_nfts).second.owner, at(@partial_diff, elem(@plot_nfts).second.address), elem(@plot_nfts).second.server_url) ;; {elem(@plot_nfts).second.is_locked} ;; {elem(@plot_nfts).second.server_url} ;; {has(@partial_diff, elem(@plot_nfts).second.address)} ;; {at(@partial_diff, elem(@plot_nfts).second.address)}
each %shared_ptr<lookup_job_t>.num_left = (%shared_ptr<lookup_job_t>.num_left + -1) ;; !{has(@plot_map, elem(@id_map).second)}
each add_task(@threads, lambda) ;; {has(@plot_map, elem(@id_map).second)}
each %vector<unsignedint> = elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).proof ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; !{empty(elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).proof)}
each %vector<unsignedint> = fetch_full_proof(at(@plot_map, elem(@id_map).second), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).index) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {empty(elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).proof)} ;; !{$0.vdf_height < @params.hardfork1_height}
each %vector<unsignedint> = fetch_full_proof(at(@plot_map, elem(@id_map).second), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).index) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})} | {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})} | {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} | {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})} | {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})} ;; {empty(%vector<unsignedint>)}
each %shared_ptr<ProofOfSpaceNFT>.seed = get_header(at(@plot_map, elem(@id_map).second)).seed ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each %shared_ptr<ProofOfSpaceNFT>.ksize = u8(get_header(at(@plot_map, elem(@id_map).second)).ksize) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each %shared_ptr<ProofOfSpaceNFT>.plot_id = get_header(at(@plot_map, elem(@id_map).second)).plot_id ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each %shared_ptr<ProofOfSpaceNFT>.challenge = $0.challenge ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each %shared_ptr<ProofOfSpaceNFT>.difficulty = at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each %shared_ptr<ProofOfSpaceNFT>.farmer_key = get_header(at(@plot_map, elem(@id_map).second)).farmer_key ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each %shared_ptr<ProofOfSpaceNFT>.contract = get_header(at(@plot_map, elem(@id_map).second)).contract ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each %shared_ptr<ProofOfSpaceNFT>.score = get_proof_score(calc_proof_hash($0.challenge, %vector<unsignedint>)) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each %shared_ptr<ProofOfSpaceNFT>.proof_xs = %vector<unsignedint> ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each %shared_ptr<Partial>.vdf_height = $0.vdf_height ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each %shared_ptr<Partial>.contract = get_header(at(@plot_map, elem(@id_map).second)).contract ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each %shared_ptr<Partial>.account = at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).owner ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each %shared_ptr<Partial>.pool_url = at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).server_url ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each %shared_ptr<Partial>.proof = %shared_ptr<ProofOfSpaceNFT> ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each %shared_ptr<Partial>.harvester = @my_name ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each %shared_ptr<Partial>.lookup_time_ms = 0 ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each publish(%shared_ptr<Partial>, @output_partials, 0) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each %shared_ptr<ProofOfSpaceNFT>.seed = get_header(at(@plot_map, elem(@id_map).second)).seed ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract}
each %shared_ptr<ProofOfSpaceNFT>.ksize = u8(get_header(at(@plot_map, elem(@id_map).second)).ksize) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract}
each %shared_ptr<ProofOfSpaceNFT>.contract = get_header(at(@plot_map, elem(@id_map).second)).contract ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract}
each %shared_ptr<ProofOfSpaceNFT>.proof_xs = %vector<unsignedint> ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract}
each %shared_ptr<ProofOfSpaceOG>.seed = get_header(at(@plot_map, elem(@id_map).second)).seed ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})} ;; !{get_header(at(@plot_map, elem(@id_map).second)).contract}
each %shared_ptr<ProofOfSpaceOG>.ksize = u8(get_header(at(@plot_map, elem(@id_map).second)).ksize) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})} ;; !{get_header(at(@plot_map, elem(@id_map).second)).contract}
each %shared_ptr<ProofOfSpaceOG>.proof_xs = %vector<unsignedint> ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})} ;; !{get_header(at(@plot_map, elem(@id_map).second)).contract}
each ite({get_header(at(@plot_map, elem(@id_map).second)).contract}, %shared_ptr<ProofOfSpaceNFT>, %shared_ptr<ProofOfSpaceOG>).score = get_proof_score(calc_proof_hash($0.challenge, %vector<unsignedint>)) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each ite({get_header(at(@plot_map, elem(@id_map).second)).contract}, %shared_ptr<ProofOfSpaceNFT>, %shared_ptr<ProofOfSpaceOG>).plot_id = get_header(at(@plot_map, elem(@id_map).second)).plot_id ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each ite({get_header(at(@plot_map, elem(@id_map).second)).contract}, %shared_ptr<ProofOfSpaceNFT>, %shared_ptr<ProofOfSpaceOG>).challenge = $0.challenge ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each ite({get_header(at(@plot_map, elem(@id_map).second)).contract}, %shared_ptr<ProofOfSpaceNFT>, %shared_ptr<ProofOfSpaceOG>).difficulty = $0.difficulty ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each ite({get_header(at(@plot_map, elem(@id_map).second)).contract}, %shared_ptr<ProofOfSpaceNFT>, %shared_ptr<ProofOfSpaceOG>).farmer_key = get_header(at(@plot_map, elem(@id_map).second)).farmer_key ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each send_response($0, ite({get_header(at(@plot_map, elem(@id_map).second)).contract}, %shared_ptr<ProofOfSpaceNFT>, %shared_ptr<ProofOfSpaceOG>), $1) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})}
each %shared_ptr<lookup_job_t>.slow_time_ms = 0 ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; !{-1 < %shared_ptr<lookup_job_t>.slow_time_ms}
each %shared_ptr<lookup_job_t>.slow_plot = get_file_path(at(@plot_map, elem(@id_map).second)) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; !{-1 < %shared_ptr<lookup_job_t>.slow_time_ms}
each %shared_ptr<lookup_job_t>.num_passed = (%shared_ptr<lookup_job_t>.num_passed + 1) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)}
each %shared_ptr<lookup_job_t>.num_left = (%shared_ptr<lookup_job_t>.num_left + -1) ;; {has(@plot_map, elem(@id_map).second)}
each notify_all(%shared_ptr<lookup_job_t>.signal) ;; {has(@plot_map, elem(@id_map).second)}
each add_task(@threads, lambda)
each wait(%shared_ptr<lookup_job_t>.signal, fold(lock_guard(%shared_ptr<lookup_job_t>.mutex), out(wait‥))) ;; {%shared_ptr<lookup_job_t>.num_left}
each %shared_ptr<LookupInfo>.id = @harvester_id
each %shared_ptr<LookupInfo>.name = @my_name
each %shared_ptr<LookupInfo>.vdf_height = $0.vdf_height
each %shared_ptr<LookupInfo>.num_total = u32(size(@id_map))
each %shared_ptr<LookupInfo>.num_passed = u32(%shared_ptr<lookup_job_t>.num_passed)
each %shared_ptr<LookupInfo>.total_time_ms = 0
each %shared_ptr<LookupInfo>.total_delay_ms = (-$1 + get_time_ms())
each %shared_ptr<LookupInfo>.slow_time_ms = %shared_ptr<lookup_job_t>.slow_time_ms ;; {%shared_ptr<lookup_job_t>.num_passed}
each %shared_ptr<LookupInfo>.slow_plot = %shared_ptr<lookup_job_t>.slow_plot ;; {%shared_ptr<lookup_job_t>.num_passed}
each publish(%shared_ptr<LookupInfo>, @output_lookups, 0)
each set_millis(@lookup_timer, 0)
never break(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter))
never break(@id_map)
never throw …
value fold(lock_guard(%shared_ptr<lookup_job_t>.mutex), out(wait#v))
exit !{%shared_ptr<lookup_job_t>.num_left}
exit {did %shared_ptr<LookupInfo>.id = @harvester_id}
exit {did %shared_ptr<LookupInfo>.name = @my_name}
exit {did %shared_ptr<LookupInfo>.num_passed = u32(%shared_ptr<lookup_job_t>.num_passed)}
exit {did %shared_ptr<LookupInfo>.num_total = u32(size(@id_map))}
exit {did %shared_ptr<LookupInfo>.total_delay_ms = (-$1 + get_time_ms())}
exit {did %shared_ptr<LookupInfo>.total_time_ms = 0}
exit {did %shared_ptr<LookupInfo>.vdf_height = $0.vdf_height}
exit {did %shared_ptr<lookup_job_t>.num_left = size(@id_map)}
exit {did %shared_ptr<lookup_job_t>.time_begin = get_time_ms()}
exit {did %shared_ptr<lookup_job_t>.total_plots = size(@id_map)}
exit {did add_task(@threads, lambda)}
exit {did publish(%shared_ptr<LookupInfo>, @output_lookups, 0)}
exit {did set_millis(@lookup_timer, 0)}
exit !{%shared_ptr<lookup_job_t>.num_passed} | {did %shared_ptr<LookupInfo>.slow_plot = %shared_ptr<lookup_job_t>.slow_plot}
exit !{%shared_ptr<lookup_job_t>.num_passed} | {did %shared_ptr<LookupInfo>.slow_time_ms = %shared_ptr<lookup_job_t>.slow_time_ms}
exit !{has(@plot_map, elem(@id_map).second)} | {did notify_all(%shared_ptr<lookup_job_t>.signal)}
exit {did %shared_ptr<lookup_job_t>.num_left = (%shared_ptr<lookup_job_t>.num_left + -1)} | {empty(@id_map)}
exit !{check_plot_filter(@params, $0.challenge, elem(@id_map).first)} | !{has(@plot_map, elem(@id_map).second)} | {did %shared_ptr<lookup_job_t>.num_passed = (%shared_ptr<lookup_job_t>.num_passed + 1)}
exit !{check_plot_filter(@params, $0.challenge, elem(@id_map).first)} | !{has(@plot_map, elem(@id_map).second)} | {-1 < %shared_ptr<lookup_job_t>.slow_time_ms} | {did %shared_ptr<lookup_job_t>.slow_plot = get_file_path(at(@plot_map, elem(@id_map).second))}
exit !{check_plot_filter(@params, $0.challenge, elem(@id_map).first)} | !{has(@plot_map, elem(@id_map).second)} | {-1 < %shared_ptr<lookup_job_t>.slow_time_ms} | {did %shared_ptr<lookup_job_t>.slow_time_ms = 0}
exit !{at(@partial_diff, elem(@plot_nfts).second.address)} | !{elem(@plot_nfts).second.is_locked} | !{elem(@plot_nfts).second.server_url} | !{has(@partial_diff, elem(@plot_nfts).second.address)} | {did at(%shared_ptr<lookup_job_t>.pool_config, elem(@plot_nfts).second.address) = init(pool_conf_t, elem(@plot_nfts).second.owner, at(@partial_diff, elem(@plot_nfts).second.address), elem(@plot_nfts).second.server_url)}
at %shared_ptr<lookup_job_t>.total_plots = size(@id_map)
at %shared_ptr<lookup_job_t>.num_left = size(@id_map)
at %shared_ptr<lookup_job_t>.time_begin = get_time_ms()
at at(%shared_ptr<lookup_job_t>.pool_config, elem(@plot_nfts).second.address) = init(pool_conf_t, elem(@plot_nfts).second.owner, at(@partial_diff, elem(@plot_nfts).second.address), elem(@plot_nfts).second.server_url) ;; {elem(@plot_nfts).second.is_locked} ;; {elem(@plot_nfts).second.server_url} ;; {has(@partial_diff, elem(@plot_nfts).second.address)} ;; {at(@partial_diff, elem(@plot_nfts).second.address)}
at %shared_ptr<lookup_job_t>.num_left = (%shared_ptr<lookup_job_t>.num_left + -1)
at add_task(@threads, lambda)
at %vector<unsignedint> = elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).proof ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; !{empty(elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).proof)}
at %vector<unsignedint> = fetch_full_proof(at(@plot_map, elem(@id_map).second), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).index) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)}
at %shared_ptr<ProofOfSpaceNFT>.seed = get_header(at(@plot_map, elem(@id_map).second)).seed ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract}
at %shared_ptr<ProofOfSpaceNFT>.ksize = u8(get_header(at(@plot_map, elem(@id_map).second)).ksize) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract}
at %shared_ptr<ProofOfSpaceNFT>.plot_id = get_header(at(@plot_map, elem(@id_map).second)).plot_id ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
at %shared_ptr<ProofOfSpaceNFT>.challenge = $0.challenge ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
at %shared_ptr<ProofOfSpaceNFT>.difficulty = at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
at %shared_ptr<ProofOfSpaceNFT>.farmer_key = get_header(at(@plot_map, elem(@id_map).second)).farmer_key ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
at %shared_ptr<ProofOfSpaceNFT>.contract = get_header(at(@plot_map, elem(@id_map).second)).contract ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract}
at %shared_ptr<ProofOfSpaceNFT>.score = get_proof_score(calc_proof_hash($0.challenge, %vector<unsignedint>)) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
at %shared_ptr<ProofOfSpaceNFT>.proof_xs = %vector<unsignedint> ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract}
at %shared_ptr<Partial>.vdf_height = $0.vdf_height ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
at %shared_ptr<Partial>.contract = get_header(at(@plot_map, elem(@id_map).second)).contract ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
at %shared_ptr<Partial>.account = at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).owner ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
at %shared_ptr<Partial>.pool_url = at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).server_url ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
at %shared_ptr<Partial>.proof = %shared_ptr<ProofOfSpaceNFT> ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
at %shared_ptr<Partial>.harvester = @my_name ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
at %shared_ptr<Partial>.lookup_time_ms = 0 ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
at publish(%shared_ptr<Partial>, @output_partials, 0) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {get_header(at(@plot_map, elem(@id_map).second)).contract} ;; {has(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), at(%shared_ptr<lookup_job_t>.pool_config, get_header(at(@plot_map, elem(@id_map).second)).contract).difficulty, !{$0.vdf_height < @params.hardfork1_height})}
at %shared_ptr<ProofOfSpaceOG>.seed = get_header(at(@plot_map, elem(@id_map).second)).seed ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})} ;; !{get_header(at(@plot_map, elem(@id_map).second)).contract}
at %shared_ptr<ProofOfSpaceOG>.ksize = u8(get_header(at(@plot_map, elem(@id_map).second)).ksize) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})} ;; !{get_header(at(@plot_map, elem(@id_map).second)).contract}
at %shared_ptr<ProofOfSpaceOG>.proof_xs = %vector<unsignedint> ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})} ;; !{get_header(at(@plot_map, elem(@id_map).second)).contract}
at ite({get_header(at(@plot_map, elem(@id_map).second)).contract}, %shared_ptr<ProofOfSpaceNFT>, %shared_ptr<ProofOfSpaceOG>).score = get_proof_score(calc_proof_hash($0.challenge, %vector<unsignedint>)) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})}
at ite({get_header(at(@plot_map, elem(@id_map).second)).contract}, %shared_ptr<ProofOfSpaceNFT>, %shared_ptr<ProofOfSpaceOG>).plot_id = get_header(at(@plot_map, elem(@id_map).second)).plot_id ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})}
at ite({get_header(at(@plot_map, elem(@id_map).second)).contract}, %shared_ptr<ProofOfSpaceNFT>, %shared_ptr<ProofOfSpaceOG>).challenge = $0.challenge ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})}
at ite({get_header(at(@plot_map, elem(@id_map).second)).contract}, %shared_ptr<ProofOfSpaceNFT>, %shared_ptr<ProofOfSpaceOG>).difficulty = $0.difficulty ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})}
at ite({get_header(at(@plot_map, elem(@id_map).second)).contract}, %shared_ptr<ProofOfSpaceNFT>, %shared_ptr<ProofOfSpaceOG>).farmer_key = get_header(at(@plot_map, elem(@id_map).second)).farmer_key ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})}
at send_response($0, ite({get_header(at(@plot_map, elem(@id_map).second)).contract}, %shared_ptr<ProofOfSpaceNFT>, %shared_ptr<ProofOfSpaceOG>), $1) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; {elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).valid} ;; {$0.vdf_height < @params.hardfork1_height} | {check_post_filter(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta, @params.post_filter)} ;; {check_proof_threshold(@params, u8(get_header(at(@plot_map, elem(@id_map).second)).ksize), ite({$0.vdf_height < @params.hardfork1_height}, calc_quality(get_plot_challenge($0.challenge, elem(@id_map).first), elem(get_qualities(at(@plot_map, elem(@id_map).second), get_plot_challenge($0.challenge, elem(@id_map).first), @params.plot_filter)).meta), calc_proof_hash(get_plot_challenge($0.challenge, elem(@id_map).first), %vector<unsignedint>)), $0.difficulty, !{$0.vdf_height < @params.hardfork1_height})}
at %shared_ptr<lookup_job_t>.slow_time_ms = 0 ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; !{-1 < %shared_ptr<lookup_job_t>.slow_time_ms}
at %shared_ptr<lookup_job_t>.slow_plot = get_file_path(at(@plot_map, elem(@id_map).second)) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)} ;; !{-1 < %shared_ptr<lookup_job_t>.slow_time_ms}
at %shared_ptr<lookup_job_t>.num_passed = (%shared_ptr<lookup_job_t>.num_passed + 1) ;; {has(@plot_map, elem(@id_map).second)} ;; {check_plot_filter(@params, $0.challenge, elem(@id_map).first)}
at notify_all(%shared_ptr<lookup_job_t>.signal) ;; {has(@plot_map, elem(@id_map).second)}
at lock_guard(%shared_ptr<lookup_job_t>.mutex)
at wait(%shared_ptr<lookup_job_t>.signal, fold(lock_guard(%shared_ptr<lookup_job_t>.mutex), out(wait‥))) ;; {%shared_ptr<lookup_job_t>.num_left}
at %shared_ptr<LookupInfo>.id = @harvester_id
at %shared_ptr<LookupInfo>.name = @my_name
at %shared_ptr<LookupInfo>.vdf_height = $0.vdf_height
at %shared_ptr<LookupInfo>.num_total = u32(size(@id_map))
at %shared_ptr<LookupInfo>.num_passed = u32(%shared_ptr<lookup_job_t>.num_passed)
at %shared_ptr<LookupInfo>.total_time_ms = 0
at %shared_ptr<LookupInfo>.total_delay_ms = (-$1 + get_time_ms())
at %shared_ptr<LookupInfo>.slow_time_ms = %shared_ptr<lookup_job_t>.slow_time_ms ;; {%shared_ptr<lookup_job_t>.num_passed}
at %shared_ptr<LookupInfo>.slow_plot = %shared_ptr<lookup_job_t>.slow_plot ;; {%shared_ptr<lookup_job_t>.num_passed}
at publish(%shared_ptr<LookupInfo>, @output_lookups, 0)
at set_millis(@lookup_timer, 0)
fn mmx::Harvester::main
each @farmer = new(FarmerClient, @farmer_server)
each @farmer_async = new(FarmerAsyncClient, @farmer_server)
each vnx_set_non_blocking(new(FarmerAsyncClient, @farmer_server), true)
each @node_async = new(NodeAsyncClient, @node_server)
each vnx_set_non_blocking(new(NodeAsyncClient, @node_server), true)
each @http = new(addons::HttpInterface<Harvester>, this, @vnx_name)
each add_async_client(new(addons::HttpInterface<Harvester>, this, @vnx_name))
each add_async_client(new(NodeAsyncClient, @node_server))
each add_async_client(new(FarmerAsyncClient, @farmer_server))
each @threads = new(ThreadPool, @num_threads, @num_threads)
each add_timer(bind(&check_queue, this))
each @lookup_timer = add_timer(bind(&check_queue, this))
each set_timer_millis(10000, bind(&update, this))
each set_timer_millis((1000 * @nft_query_interval), bind(&update_nfts, this))
each set_timer_millis((1000 * @reload_interval), bind(&reload, this)) ;; {0 < @reload_interval}
each reload()
each main()
each close(new(ThreadPool, @num_threads, @num_threads))
never throw …
exit {did @farmer = new(FarmerClient, @farmer_server)}
exit {did @farmer_async = new(FarmerAsyncClient, @farmer_server)}
exit {did @http = new(addons::HttpInterface<Harvester>, this, @vnx_name)}
exit {did @lookup_timer = add_timer(bind(&check_queue, this))}
exit {did @node_async = new(NodeAsyncClient, @node_server)}
exit {did @threads = new(ThreadPool, @num_threads, @num_threads)}
exit {did add_async_client(new(FarmerAsyncClient, @farmer_server))}
exit {did add_async_client(new(NodeAsyncClient, @node_server))}
exit {did add_async_client(new(addons::HttpInterface<Harvester>, this, @vnx_name))}
exit {did add_timer(bind(&check_queue, this))}
exit {did close(new(ThreadPool, @num_threads, @num_threads))}
exit {did main()}
exit {did reload()}
exit {did set_timer_millis((1000 * @nft_query_interval), bind(&update_nfts, this))}
exit {did set_timer_millis(10000, bind(&update, this))}
exit {did vnx_set_non_blocking(new(FarmerAsyncClient, @farmer_server), true)}
exit {did vnx_set_non_blocking(new(NodeAsyncClient, @node_server), true)}
exit !{0 < @reload_interval} | {did set_timer_millis((1000 * @reload_interval), bind(&reload, this))}
at @farmer = new(FarmerClient, @farmer_server)
at @farmer_async = new(FarmerAsyncClient, @farmer_server)
at vnx_set_non_blocking(new(FarmerAsyncClient, @farmer_server), true)
at @node_async = new(NodeAsyncClient, @node_server)
at vnx_set_non_blocking(new(NodeAsyncClient, @node_server), true)
at @http = new(addons::HttpInterface<Harvester>, this, @vnx_name)
at add_async_client(new(addons::HttpInterface<Harvester>, this, @vnx_name))
at add_async_client(new(NodeAsyncClient, @node_server))
at add_async_client(new(FarmerAsyncClient, @farmer_server))
at @threads = new(ThreadPool, @num_threads, @num_threads)
at add_timer(bind(&check_queue, this))
at @lookup_timer = add_timer(bind(&check_queue, this))
at set_timer_millis(10000, bind(&update, this))
at set_timer_millis((1000 * @nft_query_interval), bind(&update_nfts, this))
at set_timer_millis((1000 * @reload_interval), bind(&reload, this)) ;; {0 < @reload_interval}
at reload()
at main()
at close(new(ThreadPool, @num_threads, @num_threads))
fn mmx::Harvester::reload
never break(@plot_map)
each get_farmer_keys(@farmer)
each insert(%set<pubkey_t>, elem(get_farmer_keys(@farmer)))
each find_plot_dirs(@plot_dirs, %set<string,less<string>,allocator<string>>, 0) ;; {@recursive_search}
each %set<string,less<string>,allocator<string>> = @plot_dirs ;; !{@recursive_search}
each insert(%set<string,less<string>,allocator<string>>, elem(@plot_map).first)
each add_task(@threads, lambda)
each erase(%set<string,less<string>,allocator<string>>, get_path(elem(files(%Directory))))
each push_back(%vector<string,allocator<string>>, get_path(elem(files(%Directory)))) ;; !{has(@plot_map, get_path(elem(files(%Directory))))} ;; {".plot" == get_extension(elem(files(%Directory)))} ;; {"plot-mmx-" == substr(get_name(elem(files(%Directory)), true), 0, 9)}
each sync(@threads)
each push_back(%vector<pair<string,shared_ptr<pos::Prover>>,allocator<pair<string,shared_ptr<pos::Prover>>>>, elem(%vector<string,allocator<string>>), %shared_ptr<pos::Prover>) ;; !{get_ksize(%shared_ptr<pos::Prover>) < @params.min_ksize} ;; !{@params.max_ksize < get_ksize(%shared_ptr<pos::Prover>)}
each erase(@plot_map, elem(%set<string,less<string>,allocator<string>>))
each insert(@plot_map, elem(%vector<pair<string,shared_ptr<pos::Prover>>,allocator<pair<string,shared_ptr<pos::Prover>>>>)) ;; {has(%set<pubkey_t>, get_farmer_key(elem(%vector<pair<string,shared_ptr<pos::Prover>>,allocator<pair<string,shared_ptr<pos::Prover>>>>).second))}
each clear(@id_map)
each @total_bytes = 0
each @total_bytes_effective = 0
each insert(@id_map, get_plot_id(elem(@plot_map).second), elem(@plot_map).first)
each @total_bytes = (@total_bytes + file_size(ctor(File, elem(@plot_map).first)))
each @total_bytes_effective = (@total_bytes_effective + get_effective_plot_size(get_ksize(elem(@plot_map).second)))
each clear(@plot_contract_set)
each at(@plot_contract_set, get_contract(elem(@plot_map).second)) = (at(@plot_contract_set, get_contract(elem(@plot_map).second)) + 1) ;; {get_contract(elem(@plot_map).second)}
each update()
each update_nfts()
each @is_ready = false ;; !{empty(%vector<pair<string,shared_ptr<pos::Prover>>,allocator<pair<string,shared_ptr<pos::Prover>>>>)}
each clear(@already_checked) ;; !{empty(%vector<pair<string,shared_ptr<pos::Prover>>,allocator<pair<string,shared_ptr<pos::Prover>>>>)}
each set_timeout_millis(3000, lambda) ;; !{@is_ready}
each @is_ready = true ;; !{@is_ready}
never break(get_farmer_keys(@farmer))
never break(files(%Directory))
never break(%vector<string,allocator<string>>)
never break(%set<string,less<string>,allocator<string>>)
never break(%vector<pair<string,shared_ptr<pos::Prover>>,allocator<pair<string,shared_ptr<pos::Prover>>>>)
at ctor:Directory(elem(%vector<string,allocator<string>>))
at ctor:File(elem(@plot_map).first)
raise {@params.max_ksize < get_ksize(%shared_ptr<pos::Prover>)} | {get_ksize(%shared_ptr<pos::Prover>) < @params.min_ksize}
raise !{has(%set<pubkey_t>, get_farmer_key(elem(%vector<pair<string,shared_ptr<pos::Prover>>,allocator<pair<string,shared_ptr<pos::Prover>>>>).second))}
exit {did @total_bytes = (@total_bytes + file_size(ctor(File, elem(@plot_map).first)))}
exit {did @total_bytes = 0}
exit {did @total_bytes_effective = (@total_bytes_effective + get_effective_plot_size(get_ksize(elem(@plot_map).second)))}
exit {did @total_bytes_effective = 0}
exit {did clear(@id_map)}
exit {did clear(@plot_contract_set)}
exit {did erase(@plot_map, elem(%set<string,less<string>,allocator<string>>))}
exit {did get_farmer_keys(@farmer)}
exit {did insert(%set<pubkey_t>, elem(get_farmer_keys(@farmer)))}
exit {did insert(%set<string,less<string>,allocator<string>>, elem(@plot_map).first)}
exit {did insert(@id_map, get_plot_id(elem(@plot_map).second), elem(@plot_map).first)}
exit {did sync(@threads)}
exit {did update()}
exit {did update_nfts()}
exit !{@recursive_search} | {did find_plot_dirs(@plot_dirs, %set<string,less<string>,allocator<string>>, 0)}
exit !{get_contract(elem(@plot_map).second)} | {did at(@plot_contract_set, get_contract(elem(@plot_map).second)) = (at(@plot_contract_set, get_contract(elem(@plot_map).second)) + 1)}
exit {@is_ready} | {did set_timeout_millis(3000, lambda)}
exit {@recursive_search} | {did %set<string,less<string>,allocator<string>> = @plot_dirs}
exit {did @is_ready = false} | {empty(%vector<pair<string,shared_ptr<pos::Prover>>,allocator<pair<string,shared_ptr<pos::Prover>>>>)}
exit {did add_task(@threads, lambda)} | {empty(%vector<string,allocator<string>>)}
exit {did clear(@already_checked)} | {empty(%vector<pair<string,shared_ptr<pos::Prover>>,allocator<pair<string,shared_ptr<pos::Prover>>>>)}
at get_farmer_keys(@farmer)
at insert(%set<pubkey_t>, elem(get_farmer_keys(@farmer)))
at find_plot_dirs(@plot_dirs, %set<string,less<string>,allocator<string>>, 0) ;; {@recursive_search}
at %set<string,less<string>,allocator<string>> = @plot_dirs ;; !{@recursive_search}
at insert(%set<string,less<string>,allocator<string>>, elem(@plot_map).first)
at add_task(@threads, lambda)
at lock_guard(%mutex)
at erase(%set<string,less<string>,allocator<string>>, get_path(elem(files(%Directory))))
at push_back(%vector<string,allocator<string>>, get_path(elem(files(%Directory)))) ;; !{has(@plot_map, get_path(elem(files(%Directory))))} ;; {".plot" == get_extension(elem(files(%Directory)))} ;; {"plot-mmx-" == substr(get_name(elem(files(%Directory)), true), 0, 9)}
at sync(@threads)
at push_back(%vector<pair<string,shared_ptr<pos::Prover>>,allocator<pair<string,shared_ptr<pos::Prover>>>>, elem(%vector<string,allocator<string>>), %shared_ptr<pos::Prover>) ;; !{get_ksize(%shared_ptr<pos::Prover>) < @params.min_ksize} ;; !{@params.max_ksize < get_ksize(%shared_ptr<pos::Prover>)}
at erase(@plot_map, elem(%set<string,less<string>,allocator<string>>))
at insert(@plot_map, elem(%vector<pair<string,shared_ptr<pos::Prover>>,allocator<pair<string,shared_ptr<pos::Prover>>>>)) ;; {has(%set<pubkey_t>, get_farmer_key(elem(%vector<pair<string,shared_ptr<pos::Prover>>,allocator<pair<string,shared_ptr<pos::Prover>>>>).second))}
at clear(@id_map)
at @total_bytes = 0
at @total_bytes_effective = 0
at insert(@id_map, get_plot_id(elem(@plot_map).second), elem(@plot_map).first)
at @total_bytes = (@total_bytes + file_size(ctor(File, elem(@plot_map).first)))
at @total_bytes_effective = (@total_bytes_effective + get_effective_plot_size(get_ksize(elem(@plot_map).second)))
at clear(@plot_contract_set)
at at(@plot_contract_set, get_contract(elem(@plot_map).second)) = (at(@plot_contract_set, get_contract(elem(@plot_map).second)) + 1) ;; {get_contract(elem(@plot_map).second)}
at update()
at update_nfts()
at @is_ready = false ;; !{empty(%vector<pair<string,shared_ptr<pos::Prover>>,allocator<pair<string,shared_ptr<pos::Prover>>>>)}
at clear(@already_checked) ;; !{empty(%vector<pair<string,shared_ptr<pos::Prover>>,allocator<pair<string,shared_ptr<pos::Prover>>>>)}
at set_timeout_millis(3000, lambda) ;; !{@is_ready}
at @is_ready = true ;; !{@is_ready}
fn mmx::Harvester::rem_plot_dir
each erase(to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs")), $0)
each at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs") = erase(to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs")), $0)
each write_config((@vnx_name ++ ".plot_dirs"), erase(to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs")), $0))
each write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json")))
each erase(@plot_dirs, $0)
each reload()
never throw …
exit {did at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs") = erase(to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs")), $0)}
exit {did erase(@plot_dirs, $0)}
exit {did erase(to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs")), $0)}
exit {did reload()}
exit {did write_config((@vnx_name ++ ".plot_dirs"), erase(to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs")), $0))}
exit {did write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json")))}
at erase(to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs")), $0)
at at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs") = erase(to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs")), $0)
at write_config((@vnx_name ++ ".plot_dirs"), erase(to(at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "plot_dirs")), $0))
at write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json")))
at erase(@plot_dirs, $0)
at reload()
fn mmx::Harvester::send_response
each %shared_ptr<ProofResponse>.proof = $1
each %shared_ptr<ProofResponse>.vdf_height = $0.vdf_height
each %shared_ptr<ProofResponse>.farmer_addr = @farmer_addr
each %shared_ptr<ProofResponse>.harvester = substr(@my_name, 0, 1024)
each %shared_ptr<ProofResponse>.lookup_time_ms = (-$2 + get_time_ms())
each %shared_ptr<ProofResponse>.hash = calc_hash(%shared_ptr<ProofResponse>)
each %shared_ptr<ProofResponse>.content_hash = calc_content_hash(%shared_ptr<ProofResponse>)
each publish(%shared_ptr<ProofResponse>, @output_proofs, 0)
never throw …
exit {did %shared_ptr<ProofResponse>.content_hash = calc_content_hash(%shared_ptr<ProofResponse>)}
exit {did %shared_ptr<ProofResponse>.farmer_addr = @farmer_addr}
exit {did %shared_ptr<ProofResponse>.harvester = substr(@my_name, 0, 1024)}
exit {did %shared_ptr<ProofResponse>.hash = calc_hash(%shared_ptr<ProofResponse>)}
exit {did %shared_ptr<ProofResponse>.lookup_time_ms = (-$2 + get_time_ms())}
exit {did %shared_ptr<ProofResponse>.proof = $1}
exit {did %shared_ptr<ProofResponse>.vdf_height = $0.vdf_height}
exit {did publish(%shared_ptr<ProofResponse>, @output_proofs, 0)}
at %shared_ptr<ProofResponse>.proof = $1
at %shared_ptr<ProofResponse>.vdf_height = $0.vdf_height
at %shared_ptr<ProofResponse>.farmer_addr = @farmer_addr
at %shared_ptr<ProofResponse>.harvester = substr(@my_name, 0, 1024)
at %shared_ptr<ProofResponse>.lookup_time_ms = (-$2 + get_time_ms())
at %shared_ptr<ProofResponse>.hash = calc_hash(%shared_ptr<ProofResponse>)
at %shared_ptr<ProofResponse>.content_hash = calc_content_hash(%shared_ptr<ProofResponse>)
at publish(%shared_ptr<ProofResponse>, @output_proofs, 0)
fn mmx::Harvester::update
never break(@plot_nfts)
each get_mac_addr(@farmer_async, lambda, lambda)
each @farmer_addr = $cb0
each push_back(%vector<addr_t>, elem(@plot_nfts).first) ;; {elem(@plot_nfts).second.server_url}
each get_partial_diffs(@farmer_async, %vector<addr_t>, lambda, 0)
each @partial_diff = $cb0
each publish(get_farm_info(), @output_info, 0)
never break($cb0)
never throw …
exit {did get_mac_addr(@farmer_async, lambda, lambda)}
exit {did get_partial_diffs(@farmer_async, %vector<addr_t>, lambda, 0)}
exit {did publish(get_farm_info(), @output_info, 0)}
exit !{elem(@plot_nfts).second.server_url} | {did push_back(%vector<addr_t>, elem(@plot_nfts).first)}
at get_mac_addr(@farmer_async, lambda, lambda)
at @farmer_addr = $cb0
at push_back(%vector<addr_t>, elem(@plot_nfts).first) ;; {elem(@plot_nfts).second.server_url}
at get_partial_diffs(@farmer_async, %vector<addr_t>, lambda, 0)
at @partial_diff = $cb0
at publish(get_farm_info(), @output_info, 0)
fn mmx::Harvester::update_nfts
never break(@plot_nfts)
never break(@plot_contract_set)
each insert(%set<addr_t>, elem(@plot_nfts).first)
each get_plot_nft_info(@node_async, elem(@plot_contract_set).first, lambda, lambda)
each at(@plot_nfts, elem(@plot_contract_set).first) = $cb0 ;; {$cb0}
each %shared_ptr<unsignedlong> = (%shared_ptr<unsignedlong> + -1)
each update() ;; !{(%shared_ptr<unsignedlong> + -1)}
each set_timeout_millis(2000, bind(&update, this)) ;; !{(%shared_ptr<unsignedlong> + -1)}
each erase(%set<addr_t>, elem(@plot_contract_set).first)
each erase(@plot_nfts, elem(%set<addr_t>))
never break(%set<addr_t>)
never throw …
exit {did erase(%set<addr_t>, elem(@plot_contract_set).first)}
exit {did erase(@plot_nfts, elem(%set<addr_t>))}
exit {did get_plot_nft_info(@node_async, elem(@plot_contract_set).first, lambda, lambda)}
exit {did insert(%set<addr_t>, elem(@plot_nfts).first)}
at insert(%set<addr_t>, elem(@plot_nfts).first)
at get_plot_nft_info(@node_async, elem(@plot_contract_set).first, lambda, lambda)
at at(@plot_nfts, elem(@plot_contract_set).first) = $cb0 ;; {$cb0}
at %shared_ptr<unsignedlong> = (%shared_ptr<unsignedlong> + -1)
at update() ;; !{(%shared_ptr<unsignedlong> + -1)}
at set_timeout_millis(2000, bind(&update, this)) ;; !{(%shared_ptr<unsignedlong> + -1)}
at erase(%set<addr_t>, elem(@plot_contract_set).first)
at erase(@plot_nfts, elem(%set<addr_t>))
