tus src/Node_api.cpp
fn mmx::Node::call_contract
each get_contract_as($0, 0, 0)
each get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0) ;; {get_contract_as($0, 0, 0)}
each %shared_ptr<vm::Engine>.gas_limit = @params.max_tx_cost ;; {get_contract_as($0, 0, 0)} ;; {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} ;; {find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1)}
each load(%shared_ptr<vm::Engine>, get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)) ;; {get_contract_as($0, 0, 0)} ;; {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} ;; {find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1)}
each write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_TXID), ctor(vm::var_t)) ;; {get_contract_as($0, 0, 0)} ;; {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} ;; {find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1)}
each write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_HEIGHT), ctor(vm::uint_t, get_height())) ;; {get_contract_as($0, 0, 0)} ;; {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} ;; {find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1)}
each write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_ADDRESS), ctor(vm::varptr_t, to_binary($0))) ;; {get_contract_as($0, 0, 0)} ;; {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} ;; {find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1)}
each write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_NETWORK), ctor(vm::varptr_t, to_binary(@params.network, vm::TYPE_STRING))) ;; {get_contract_as($0, 0, 0)} ;; {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} ;; {find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1)}
each write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_USER), ctor(vm::varptr_t, to_binary($3))) ;; {get_contract_as($0, 0, 0)} ;; {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} ;; {find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1)} ;; {$3}
each write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_USER), ctor(vm::var_t)) ;; {get_contract_as($0, 0, 0)} ;; {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} ;; {find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1)} ;; !{$3}
each set_deposit(%shared_ptr<vm::Engine>, $4.first, $4.second) ;; {get_contract_as($0, 0, 0)} ;; {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} ;; {find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1)} ;; {$4}
each set_args(%shared_ptr<vm::Engine>, $2) ;; {get_contract_as($0, 0, 0)} ;; {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} ;; {find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1)}
each execute(%shared_ptr<vm::Engine>, find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1), false) ;; {get_contract_as($0, 0, 0)} ;; {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} ;; {find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1)}
at ctor:vm::uint_t(get_height())
raise {get_contract_as($0, 0, 0)} ;; {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} ;; !{find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1)}
raise {get_contract_as($0, 0, 0)} ;; !{get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)}
raise !{get_contract_as($0, 0, 0)}
exit {did %shared_ptr<vm::Engine>.gas_limit = @params.max_tx_cost}
exit {did execute(%shared_ptr<vm::Engine>, find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1), false)}
exit {did get_contract_as($0, 0, 0)}
exit {did get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)}
exit {did load(%shared_ptr<vm::Engine>, get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0))}
exit {did set_args(%shared_ptr<vm::Engine>, $2)}
exit {did write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_ADDRESS), ctor(vm::varptr_t, to_binary($0)))}
exit {did write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_HEIGHT), ctor(vm::uint_t, get_height()))}
exit {did write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_NETWORK), ctor(vm::varptr_t, to_binary(@params.network, vm::TYPE_STRING)))}
exit {did write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_TXID), ctor(vm::var_t))}
exit {find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1)}
exit {get_contract_as($0, 0, 0)}
exit {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)}
exit {ret = read(%shared_ptr<vm::Engine>, MEM_STACK)}
exit !{$3} | {did write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_USER), ctor(vm::varptr_t, to_binary($3)))}
exit !{$4} | {did set_deposit(%shared_ptr<vm::Engine>, $4.first, $4.second)}
exit {$3} | {did write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_USER), ctor(vm::var_t))}
at get_contract_as($0, 0, 0)
at get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)
at %shared_ptr<vm::Engine>.gas_limit = @params.max_tx_cost
at load(%shared_ptr<vm::Engine>, get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0))
at write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_TXID), ctor(vm::var_t))
at write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_HEIGHT), ctor(vm::uint_t, get_height()))
at write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_ADDRESS), ctor(vm::varptr_t, to_binary($0)))
at write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_NETWORK), ctor(vm::varptr_t, to_binary(@params.network, vm::TYPE_STRING)))
at write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_USER), ctor(vm::varptr_t, to_binary($3))) ;; {$3}
at write(%shared_ptr<vm::Engine>, (MEM_EXTERN + vm::EXTERN_USER), ctor(vm::var_t)) ;; !{$3}
at set_deposit(%shared_ptr<vm::Engine>, $4.first, $4.second) ;; {$4}
at set_args(%shared_ptr<vm::Engine>, $2)
at execute(%shared_ptr<vm::Engine>, find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), $1), false)
fn mmx::Node::get_plot_nft_info
each get_contract_as($0, 0, 0)
each %plot_nft_info_t.name = get_contract_as($0, 0, 0).name ;; {get_contract_as($0, 0, 0)} ;; {@params.plot_nft_binary == get_contract_as($0, 0, 0).binary}
each %plot_nft_info_t.owner = to_addr(at(read_storage($0, 4294967295), "owner")) ;; {get_contract_as($0, 0, 0)} ;; {@params.plot_nft_binary == get_contract_as($0, 0, 0).binary}
each %plot_nft_info_t.address = $0 ;; {get_contract_as($0, 0, 0)} ;; {@params.plot_nft_binary == get_contract_as($0, 0, 0).binary}
each %plot_nft_info_t.unlock_height = u32(to_uint(at(read_storage($0, 4294967295), "unlock_height"))) ;; {get_contract_as($0, 0, 0)} ;; {@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} ;; {at(read_storage($0, 4294967295), "unlock_height")} ;; {at(read_storage($0, 4294967295), "unlock_height").type == vm::TYPE_UINT}
each %plot_nft_info_t.is_locked = {get_height() < u32(to_uint(at(read_storage($0, 4294967295), "unlock_height")))} ;; {get_contract_as($0, 0, 0)} ;; {@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} ;; {at(read_storage($0, 4294967295), "unlock_height")} ;; {at(read_storage($0, 4294967295), "unlock_height").type == vm::TYPE_UINT}
each %plot_nft_info_t.is_locked = true ;; {get_contract_as($0, 0, 0)} ;; {@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} ;; !{at(read_storage($0, 4294967295), "unlock_height").type == vm::TYPE_UINT} | !{at(read_storage($0, 4294967295), "unlock_height")}
each %plot_nft_info_t.target = to_addr(at(read_storage($0, 4294967295), "target")) ;; {get_contract_as($0, 0, 0)} ;; {@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} ;; !{at(read_storage($0, 4294967295), "unlock_height").type == vm::TYPE_UINT} | !{at(read_storage($0, 4294967295), "unlock_height")} | {get_height() < u32(to_uint(at(read_storage($0, 4294967295), "unlock_height")))}
each %plot_nft_info_t.server_url = to_string_value(at(read_storage($0, 4294967295), "server_url")) ;; {get_contract_as($0, 0, 0)} ;; {@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} ;; {at(read_storage($0, 4294967295), "server_url")} ;; {at(read_storage($0, 4294967295), "server_url").type == vm::TYPE_STRING}
never throw …
exit {did get_contract_as($0, 0, 0)}
exit {ret = ite((!{@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} || !{get_contract_as($0, 0, 0)}), 0, %plot_nft_info_t)}
exit {@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} | {ret = 0}
exit {get_contract_as($0, 0, 0)} | {ret = 0}
exit !{@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} | !{get_contract_as($0, 0, 0)} | {did %plot_nft_info_t.address = $0}
exit !{@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} | !{get_contract_as($0, 0, 0)} | {did %plot_nft_info_t.name = get_contract_as($0, 0, 0).name}
exit !{@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} | !{get_contract_as($0, 0, 0)} | {did %plot_nft_info_t.owner = to_addr(at(read_storage($0, 4294967295), "owner"))}
exit !{@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} | !{get_contract_as($0, 0, 0)} | {ret = %plot_nft_info_t}
exit !{@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} | !{get_contract_as($0, 0, 0)} | !{get_height() < u32(to_uint(at(read_storage($0, 4294967295), "unlock_height")))} | {did %plot_nft_info_t.target = to_addr(at(read_storage($0, 4294967295), "target"))}
exit !{@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} | !{get_contract_as($0, 0, 0)} | {at(read_storage($0, 4294967295), "unlock_height").type == vm::TYPE_UINT} | {did %plot_nft_info_t.is_locked = true}
exit !{@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} | !{get_contract_as($0, 0, 0)} | {at(read_storage($0, 4294967295), "unlock_height").type == vm::TYPE_UINT} | {did %plot_nft_info_t.target = to_addr(at(read_storage($0, 4294967295), "target"))}
exit !{@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} | !{get_contract_as($0, 0, 0)} | {at(read_storage($0, 4294967295), "unlock_height")} | {did %plot_nft_info_t.is_locked = true}
exit !{@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} | !{get_contract_as($0, 0, 0)} | {at(read_storage($0, 4294967295), "unlock_height")} | {did %plot_nft_info_t.target = to_addr(at(read_storage($0, 4294967295), "target"))}
exit !{@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} | !{at(read_storage($0, 4294967295), "server_url").type == vm::TYPE_STRING} | !{at(read_storage($0, 4294967295), "server_url")} | !{get_contract_as($0, 0, 0)} | {did %plot_nft_info_t.server_url = to_string_value(at(read_storage($0, 4294967295), "server_url"))}
exit !{@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} | !{at(read_storage($0, 4294967295), "unlock_height").type == vm::TYPE_UINT} | !{at(read_storage($0, 4294967295), "unlock_height")} | !{get_contract_as($0, 0, 0)} | {did %plot_nft_info_t.is_locked = {get_height() < u32(to_uint(at(read_storage($0, 4294967295), "unlock_height")))}}
exit !{@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} | !{at(read_storage($0, 4294967295), "unlock_height").type == vm::TYPE_UINT} | !{at(read_storage($0, 4294967295), "unlock_height")} | !{get_contract_as($0, 0, 0)} | {did %plot_nft_info_t.unlock_height = u32(to_uint(at(read_storage($0, 4294967295), "unlock_height")))}
at get_contract_as($0, 0, 0)
at %plot_nft_info_t.name = get_contract_as($0, 0, 0).name ;; {get_contract_as($0, 0, 0)} ;; {@params.plot_nft_binary == get_contract_as($0, 0, 0).binary}
at %plot_nft_info_t.owner = to_addr(at(read_storage($0, 4294967295), "owner")) ;; {get_contract_as($0, 0, 0)} ;; {@params.plot_nft_binary == get_contract_as($0, 0, 0).binary}
at %plot_nft_info_t.address = $0 ;; {get_contract_as($0, 0, 0)} ;; {@params.plot_nft_binary == get_contract_as($0, 0, 0).binary}
at %plot_nft_info_t.unlock_height = u32(to_uint(at(read_storage($0, 4294967295), "unlock_height"))) ;; {get_contract_as($0, 0, 0)} ;; {@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} ;; {at(read_storage($0, 4294967295), "unlock_height")} ;; {at(read_storage($0, 4294967295), "unlock_height").type == vm::TYPE_UINT}
at %plot_nft_info_t.is_locked = {get_height() < u32(to_uint(at(read_storage($0, 4294967295), "unlock_height")))} ;; {get_contract_as($0, 0, 0)} ;; {@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} ;; {at(read_storage($0, 4294967295), "unlock_height")} ;; {at(read_storage($0, 4294967295), "unlock_height").type == vm::TYPE_UINT}
at %plot_nft_info_t.is_locked = true ;; {get_contract_as($0, 0, 0)} ;; {@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} ;; !{at(read_storage($0, 4294967295), "unlock_height").type == vm::TYPE_UINT} | !{at(read_storage($0, 4294967295), "unlock_height")}
at %plot_nft_info_t.target = to_addr(at(read_storage($0, 4294967295), "target")) ;; {get_contract_as($0, 0, 0)} ;; {@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} ;; !{at(read_storage($0, 4294967295), "unlock_height").type == vm::TYPE_UINT} | !{at(read_storage($0, 4294967295), "unlock_height")} | {get_height() < u32(to_uint(at(read_storage($0, 4294967295), "unlock_height")))}
at %plot_nft_info_t.server_url = to_string_value(at(read_storage($0, 4294967295), "server_url")) ;; {get_contract_as($0, 0, 0)} ;; {@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} ;; {at(read_storage($0, 4294967295), "server_url")} ;; {at(read_storage($0, 4294967295), "server_url").type == vm::TYPE_STRING}
fn mmx::Node::get_plot_nft_target
each get_contract_as($0, 0, 0)
each get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0) ;; {get_contract_as($0, 0, 0)}
each %Variant = to_string($1) ;; {get_contract_as($0, 0, 0)} ;; {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} ;; {find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), "mmx_reward_target")} ;; {$1}
exit {did get_contract_as($0, 0, 0)}
exit {ret = ite((!{find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), "mmx_reward_target")} || !{get_contract_as($0, 0, 0)} || !{get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)}), $0, to(call_contract($0, "mmx_reward_target", ctor(vector<Variant>, init(Variant[1], %Variant)), 0, 0)))}
exit {find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), "mmx_reward_target")} | {ret = $0}
exit {get_contract_as($0, 0, 0)} | {ret = $0}
exit {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} | {ret = $0}
exit !{get_contract_as($0, 0, 0)} | {did get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} | {find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), "mmx_reward_target")}
exit !{get_contract_as($0, 0, 0)} | {did get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} | {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)}
exit !{find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), "mmx_reward_target")} | !{get_contract_as($0, 0, 0)} | !{get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} | {did get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)}
exit !{find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), "mmx_reward_target")} | !{get_contract_as($0, 0, 0)} | !{get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} | {ret = to(call_contract($0, "mmx_reward_target", ctor(vector<Variant>, init(Variant[1], %Variant)), 0, 0))}
at get_contract_as($0, 0, 0)
at get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0) ;; {get_contract_as($0, 0, 0)}
at %Variant = to_string($1) ;; {get_contract_as($0, 0, 0)} ;; {get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0)} ;; {find_method(get_contract_as(get_contract_as($0, 0, 0).binary, 0, 0), "mmx_reward_target")} ;; {$1}
fn mmx::Node::verify_plot_nft_target
each get_contract_as($0, 0, 0) ;; {@is_synced}
raise !{@is_synced}
exit {@is_synced}
exit {@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} | {did get_contract_as($0, 0, 0)}
exit {@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} | {ret = ctor(tuple<pooling_error_e,string>, pooling_error_e::INVALID_CONTRACT, ("Not a Plot NFT contract: " ++ to_string($0)))}
exit {did get_contract_as($0, 0, 0)} | {get_contract_as($0, 0, 0)}
exit {get_contract_as($0, 0, 0)} | {ret = ctor(tuple<pooling_error_e,string>, pooling_error_e::INVALID_CONTRACT, ("Not a Plot NFT contract: " ++ to_string($0)))}
exit !{@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} | !{get_contract_as($0, 0, 0)} | {$1 == get_plot_nft_target($0, 0)} | {did get_contract_as($0, 0, 0)}
exit !{@params.plot_nft_binary == get_contract_as($0, 0, 0).binary} | !{get_contract_as($0, 0, 0)} | {$1 == get_plot_nft_target($0, 0)} | {ret = ctor(tuple<pooling_error_e,string>, pooling_error_e::INVALID_CONTRACT, ("Plot NFT not pointing at expected pool target: " ++ to_string(get_plot_nft_target($0, 0))))}
at get_contract_as($0, 0, 0)
fn mmx::Node::verify_partial
each find_challenge($0.vdf_height, ctor(hash_t), 0) ;; {@is_synced} ;; {$0} ;; {$0.proof} ;; {$0.hash == calc_hash($0)} ;; {$0.farmer_sig} ;; {verify($0.farmer_sig, $0.proof.farmer_key, $0.hash)} ;; !{get_vdf_height() < $0.vdf_height}
each verify_proof($0.proof, out(find_challenge‥, $0.vdf_height, 0), $0.proof.difficulty, $0.vdf_height) ;; {@is_synced} ;; {$0} ;; {$0.proof} ;; {$0.hash == calc_hash($0)} ;; {$0.farmer_sig} ;; {verify($0.farmer_sig, $0.proof.farmer_key, $0.hash)} ;; !{get_vdf_height() < $0.vdf_height} ;; {find_challenge($0.vdf_height, ctor(hash_t), 0)} ;; {$0.proof.challenge == out(find_challenge‥, $0.vdf_height, 0)}
raise !{@is_synced}
raise {@is_synced} ;; !{$0}
exit {$0}
exit {@is_synced}
exit {$0.proof} | {ret = ctor(tuple<pooling_error_e,string>, pooling_error_e::INVALID_PROOF, "Partial has no proof")}
exit !{$0.proof} | {$0.hash == calc_hash($0)} | {ret = ctor(tuple<pooling_error_e,string>, pooling_error_e::INVALID_SIGNATURE, "Message hash mismatch")}
exit !{$0.hash == calc_hash($0)} | !{$0.proof} | {$0.farmer_sig} | {ret = ctor(tuple<pooling_error_e,string>, pooling_error_e::INVALID_SIGNATURE, "Missing signature")}
exit !{$0.farmer_sig} | !{$0.hash == calc_hash($0)} | !{$0.proof} | {ret = ctor(tuple<pooling_error_e,string>, pooling_error_e::INVALID_SIGNATURE, "Signature verification failed")} | {verify($0.farmer_sig, $0.proof.farmer_key, $0.hash)}
at find_challenge($0.vdf_height, ctor(hash_t), 0) ;; {$0.proof} ;; {$0.hash == calc_hash($0)} ;; {$0.farmer_sig} ;; {verify($0.farmer_sig, $0.proof.farmer_key, $0.hash)} ;; !{get_vdf_height() < $0.vdf_height}
at verify_proof($0.proof, out(find_challenge‥, $0.vdf_height, 0), $0.proof.difficulty, $0.vdf_height) ;; {$0.proof} ;; {$0.hash == calc_hash($0)} ;; {$0.farmer_sig} ;; {verify($0.farmer_sig, $0.proof.farmer_key, $0.hash)} ;; !{get_vdf_height() < $0.vdf_height} ;; {find_challenge($0.vdf_height, ctor(hash_t), 0)} ;; {$0.proof.challenge == out(find_challenge‥, $0.vdf_height, 0)}
fn mmx::Node::get_offer
each %offer_data_t.address = $0 ;; !{empty(read_storage($0, 4294967295))}
each find(@tx_index, $0, %tx_index_t, 4294967295) ;; !{empty(read_storage($0, 4294967295))}
each %offer_data_t.height = %tx_index_t.height ;; !{empty(read_storage($0, 4294967295))} ;; {find(@tx_index, $0, %tx_index_t, 4294967295)}
each %offer_data_t.time_stamp = %tx_index_t.time_stamp ;; !{empty(read_storage($0, 4294967295))} ;; {find(@tx_index, $0, %tx_index_t, 4294967295)}
each %offer_data_t.partner = to_addr(at(read_storage($0, 4294967295), "partner")) ;; !{empty(read_storage($0, 4294967295))} ;; {at(read_storage($0, 4294967295), "partner")} ;; !{at(read_storage($0, 4294967295), "partner").type == vm::TYPE_NIL}
each %offer_data_t.owner = to_addr(at(read_storage($0, 4294967295), "owner")) ;; !{empty(read_storage($0, 4294967295))}
each %offer_data_t.bid_currency = to_addr(at(read_storage($0, 4294967295), "bid_currency")) ;; !{empty(read_storage($0, 4294967295))}
each %offer_data_t.ask_currency = to_addr(at(read_storage($0, 4294967295), "ask_currency")) ;; !{empty(read_storage($0, 4294967295))}
each %offer_data_t.bid_balance = get_balance($0, to_addr(at(read_storage($0, 4294967295), "bid_currency"))) ;; !{empty(read_storage($0, 4294967295))}
each %offer_data_t.ask_balance = get_balance($0, to_addr(at(read_storage($0, 4294967295), "ask_currency"))) ;; !{empty(read_storage($0, 4294967295))}
each %offer_data_t.inv_price = to_uint(at(read_storage($0, 4294967295), "inv_price")) ;; !{empty(read_storage($0, 4294967295))}
each %offer_data_t.last_update = u32(to_uint(at(read_storage($0, 4294967295), "last_update"))) ;; !{empty(read_storage($0, 4294967295))}
each %offer_data_t.price = get_price(%offer_data_t) ;; !{empty(read_storage($0, 4294967295))}
each %offer_data_t.ask_amount = get_ask_amount(%offer_data_t, get_balance($0, to_addr(at(read_storage($0, 4294967295), "bid_currency")))) ;; !{empty(read_storage($0, 4294967295))}
raise {empty(read_storage($0, 4294967295))}
exit !{empty(read_storage($0, 4294967295))}
exit {did %offer_data_t.address = $0}
exit {did %offer_data_t.ask_amount = get_ask_amount(%offer_data_t, get_balance($0, to_addr(at(read_storage($0, 4294967295), "bid_currency"))))}
exit {did %offer_data_t.ask_balance = get_balance($0, to_addr(at(read_storage($0, 4294967295), "ask_currency")))}
exit {did %offer_data_t.ask_currency = to_addr(at(read_storage($0, 4294967295), "ask_currency"))}
exit {did %offer_data_t.bid_balance = get_balance($0, to_addr(at(read_storage($0, 4294967295), "bid_currency")))}
exit {did %offer_data_t.bid_currency = to_addr(at(read_storage($0, 4294967295), "bid_currency"))}
exit {did %offer_data_t.inv_price = to_uint(at(read_storage($0, 4294967295), "inv_price"))}
exit {did %offer_data_t.last_update = u32(to_uint(at(read_storage($0, 4294967295), "last_update")))}
exit {did %offer_data_t.owner = to_addr(at(read_storage($0, 4294967295), "owner"))}
exit {did %offer_data_t.price = get_price(%offer_data_t)}
exit {did find(@tx_index, $0, %tx_index_t, 4294967295)}
exit {ret = %offer_data_t}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {did %offer_data_t.height = %tx_index_t.height}
exit !{find(@tx_index, $0, %tx_index_t, 4294967295)} | {did %offer_data_t.time_stamp = %tx_index_t.time_stamp}
exit !{at(read_storage($0, 4294967295), "partner")} | {at(read_storage($0, 4294967295), "partner").type == vm::TYPE_NIL} | {did %offer_data_t.partner = to_addr(at(read_storage($0, 4294967295), "partner"))}
at %offer_data_t.address = $0
at find(@tx_index, $0, %tx_index_t, 4294967295)
at %offer_data_t.height = %tx_index_t.height ;; {find(@tx_index, $0, %tx_index_t, 4294967295)}
at %offer_data_t.time_stamp = %tx_index_t.time_stamp ;; {find(@tx_index, $0, %tx_index_t, 4294967295)}
at %offer_data_t.partner = to_addr(at(read_storage($0, 4294967295), "partner")) ;; {at(read_storage($0, 4294967295), "partner")} ;; !{at(read_storage($0, 4294967295), "partner").type == vm::TYPE_NIL}
at %offer_data_t.owner = to_addr(at(read_storage($0, 4294967295), "owner"))
at %offer_data_t.bid_currency = to_addr(at(read_storage($0, 4294967295), "bid_currency"))
at %offer_data_t.ask_currency = to_addr(at(read_storage($0, 4294967295), "ask_currency"))
at %offer_data_t.bid_balance = get_balance($0, to_addr(at(read_storage($0, 4294967295), "bid_currency")))
at %offer_data_t.ask_balance = get_balance($0, to_addr(at(read_storage($0, 4294967295), "ask_currency")))
at %offer_data_t.inv_price = to_uint(at(read_storage($0, 4294967295), "inv_price"))
at %offer_data_t.last_update = u32(to_uint(at(read_storage($0, 4294967295), "last_update")))
at %offer_data_t.price = get_price(%offer_data_t)
at %offer_data_t.ask_amount = get_ask_amount(%offer_data_t, get_balance($0, to_addr(at(read_storage($0, 4294967295), "bid_currency"))))
fn mmx::Node::get_offer_state
never throw …
exit {ret = ite({get_balance($0, to_addr(read_storage_field($0, "bid_currency", 4294967295).first))}, 1, ite({get_balance($0, to_addr(read_storage_field($0, "ask_currency", 4294967295).first))}, 2, 0))}
exit !{get_balance($0, to_addr(read_storage_field($0, "bid_currency", 4294967295).first))} | {ret = 1}
exit !{get_balance($0, to_addr(read_storage_field($0, "ask_currency", 4294967295).first))} | {get_balance($0, to_addr(read_storage_field($0, "bid_currency", 4294967295).first))} | {ret = 2}
exit {get_balance($0, to_addr(read_storage_field($0, "ask_currency", 4294967295).first))} | {get_balance($0, to_addr(read_storage_field($0, "bid_currency", 4294967295).first))} | {ret = 0}
fn mmx::Node::fetch_offers
each push_back(%vector<offer_data_t>, get_offer(elem($0))) ;; !{$1} | {$2} | {1 == get_offer_state(elem($0))} ;; !{$1} | {1 == get_offer_state(elem($0))} | {2 == get_offer_state(elem($0))} ;; !{get_offer(elem($0)).partner} ;; !{is_scam(get_offer(elem($0)))}
never break($0)
never throw …
exit {ret = %vector<offer_data_t>}
exit !{1 == get_offer_state(elem($0))} | {did push_back(%vector<offer_data_t>, get_offer(elem($0)))} | {get_offer(elem($0)).partner} | {is_scam(get_offer(elem($0)))}
exit {$1} | {did push_back(%vector<offer_data_t>, get_offer(elem($0)))} | {get_offer(elem($0)).partner} | {is_scam(get_offer(elem($0)))}
exit !{$2} | !{2 == get_offer_state(elem($0))} | {did push_back(%vector<offer_data_t>, get_offer(elem($0)))} | {get_offer(elem($0)).partner} | {is_scam(get_offer(elem($0)))}
at push_back(%vector<offer_data_t>, get_offer(elem($0))) ;; !{$1} | {$2} | {1 == get_offer_state(elem($0))} ;; !{$1} | {1 == get_offer_state(elem($0))} | {2 == get_offer_state(elem($0))} ;; !{get_offer(elem($0)).partner} ;; !{is_scam(get_offer(elem($0)))}
fn mmx::Node::get_offers
each make_tuple(@params.offer_binary, $0, 0)
each make_tuple(@params.offer_binary, -1, -1)
each find_range(@contract_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(@params.offer_binary, $0, 0)), ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(@params.offer_binary, -1, -1)), %vector<addr_t>, 18446744073709551615)
never throw …
exit {did find_range(@contract_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(@params.offer_binary, $0, 0)), ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(@params.offer_binary, -1, -1)), %vector<addr_t>, 18446744073709551615)}
exit {ret = fetch_offers(%vector<addr_t>, $1, false)}
at find_range(@contract_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(@params.offer_binary, $0, 0)), ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(@params.offer_binary, -1, -1)), %vector<addr_t>, 18446744073709551615)
fn mmx::Node::get_offers_by
never throw …
exit {ret = fetch_offers(get_contracts_owned_by($0, @params.offer_binary), $1, true)}
fn mmx::Node::get_recent_offers
each find_last_range(@contract_log, %tuple<hash_t,unsignedint,unsignedint>, %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, max($0, 100)) ;; {size(%vector<offer_data_t>) < $0}
each %tuple<hash_t,unsignedint,unsignedint> = back(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first ;; {size(%vector<offer_data_t>) < $0} ;; {find_last_range(@contract_log, %tuple<hash_t,unsignedint,unsignedint>, %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, max($0, 100))}
each push_back(%vector<addr_t>, elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second) ;; {size(%vector<offer_data_t>) < $0} ;; {find_last_range(@contract_log, %tuple<hash_t,unsignedint,unsignedint>, %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, max($0, 100))}
each insert(%vector<offer_data_t>, end(%vector<offer_data_t>), begin(fetch_offers(%vector<addr_t>, $1, false)), end(fetch_offers(%vector<addr_t>, $1, false))) ;; {size(%vector<offer_data_t>) < $0} ;; {find_last_range(@contract_log, %tuple<hash_t,unsignedint,unsignedint>, %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, max($0, 100))}
each resize(%vector<offer_data_t>, min($0, size(%vector<offer_data_t>)))
never break(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>)
never throw …
exit {did resize(%vector<offer_data_t>, min($0, size(%vector<offer_data_t>)))}
exit {ret = %vector<offer_data_t>}
exit !{find_last_range(@contract_log, %tuple<hash_t,unsignedint,unsignedint>, %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, max($0, 100))} | !{size(%vector<offer_data_t>) < $0}
exit !{find_last_range(@contract_log, %tuple<hash_t,unsignedint,unsignedint>, %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, max($0, 100))} | {did push_back(%vector<addr_t>, elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second)}
exit {did push_back(%vector<addr_t>, elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second)} | {size(%vector<offer_data_t>) < $0}
exit !{size(%vector<offer_data_t>) < $0} | {did break(loop)} | {find_last_range(@contract_log, %tuple<hash_t,unsignedint,unsignedint>, %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, max($0, 100))}
exit !{size(%vector<offer_data_t>) < $0} | {did find_last_range(@contract_log, %tuple<hash_t,unsignedint,unsignedint>, %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, max($0, 100))} | {find_last_range(@contract_log, %tuple<hash_t,unsignedint,unsignedint>, %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, max($0, 100))}
at find_last_range(@contract_log, %tuple<hash_t,unsignedint,unsignedint>, %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, max($0, 100)) ;; {size(%vector<offer_data_t>) < $0}
never break(loop) ;; {size(%vector<offer_data_t>) < $0} ;; !{find_last_range(@contract_log, %tuple<hash_t,unsignedint,unsignedint>, %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, max($0, 100))}
at %tuple<hash_t,unsignedint,unsignedint> = back(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first ;; {size(%vector<offer_data_t>) < $0} ;; {find_last_range(@contract_log, %tuple<hash_t,unsignedint,unsignedint>, %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, max($0, 100))}
at push_back(%vector<addr_t>, elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second) ;; {size(%vector<offer_data_t>) < $0} ;; {find_last_range(@contract_log, %tuple<hash_t,unsignedint,unsignedint>, %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, max($0, 100))}
at insert(%vector<offer_data_t>, end(%vector<offer_data_t>), begin(fetch_offers(%vector<addr_t>, $1, false)), end(fetch_offers(%vector<addr_t>, $1, false))) ;; {size(%vector<offer_data_t>) < $0} ;; {find_last_range(@contract_log, %tuple<hash_t,unsignedint,unsignedint>, %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, max($0, 100))}
at resize(%vector<offer_data_t>, min($0, size(%vector<offer_data_t>)))
fn mmx::Node::get_recent_offers_for
at make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0) ;; {$0} | {$1} ;; {size(%vector<offer_data_t>) < $3}
never fetch_offers(%vector<addr_t>, $4, false) ;; {$0} | {$1} ;; {size(%vector<offer_data_t>) < $3} ;; {find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)}
never break(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>)
each %vector<offer_data_t> = get_recent_offers($3, $4) ;; !{$0} ;; !{$1}
each make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0) ;; {$0} | {$1} ;; {size(%vector<offer_data_t>) < $3}
each find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3) ;; {$0} | {$1} ;; {size(%vector<offer_data_t>) < $3}
each push_back(%vector<addr_t>, elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second) ;; {$0} | {$1} ;; {size(%vector<offer_data_t>) < $3} ;; {find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)}
each push_back(%vector<offer_data_t>, elem(fetch_offers(%vector<addr_t>, $4, false))) ;; {$0} | {$1} ;; {size(%vector<offer_data_t>) < $3} ;; {find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)} ;; !{elem(fetch_offers(%vector<addr_t>, $4, false)).bid_balance < $2}
each %tuple<hash_t,unsignedint,unsignedint> = back(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first ;; {$0} | {$1} ;; {size(%vector<offer_data_t>) < $3} ;; {find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)}
each sort(begin(%vector<offer_data_t>), end(%vector<offer_data_t>), by({pair($cb1.height, $cb1.address) < pair($cb0.height, $cb0.address)}))
each resize(%vector<offer_data_t>, min($3, size(%vector<offer_data_t>)))
never break(fetch_offers(%vector<addr_t>, $4, false))
never throw …
value fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple#v, 0, 0))
exit {did resize(%vector<offer_data_t>, min($3, size(%vector<offer_data_t>)))}
exit {did sort(begin(%vector<offer_data_t>), end(%vector<offer_data_t>), by({pair($cb1.height, $cb1.address) < pair($cb0.height, $cb0.address)}))}
exit {ret = %vector<offer_data_t>}
exit !{$0} | {did find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)}
exit !{$1} | {did find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)}
exit !{$0} | !{find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)} | !{size(%vector<offer_data_t>) < $3}
exit !{$0} | !{find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)} | {did push_back(%vector<addr_t>, elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second)}
exit !{$0} | {did push_back(%vector<addr_t>, elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second)} | {size(%vector<offer_data_t>) < $3}
exit !{$0} | {find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)} | {size(%vector<offer_data_t>) < $3}
exit !{$1} | !{find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)} | !{size(%vector<offer_data_t>) < $3}
exit !{$1} | !{find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)} | {did push_back(%vector<addr_t>, elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second)}
exit !{$1} | {did push_back(%vector<addr_t>, elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second)} | {size(%vector<offer_data_t>) < $3}
exit !{$1} | {find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)} | {size(%vector<offer_data_t>) < $3}
exit {$0} | {$1} | {did %vector<offer_data_t> = get_recent_offers($3, $4)}
exit !{$0} | !{find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)} | {did push_back(%vector<offer_data_t>, elem(fetch_offers(%vector<addr_t>, $4, false)))} | {elem(fetch_offers(%vector<addr_t>, $4, false)).bid_balance < $2}
exit !{$0} | !{size(%vector<offer_data_t>) < $3} | {did break(loop)} | {find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)}
exit !{$0} | {did push_back(%vector<offer_data_t>, elem(fetch_offers(%vector<addr_t>, $4, false)))} | {elem(fetch_offers(%vector<addr_t>, $4, false)).bid_balance < $2} | {size(%vector<offer_data_t>) < $3}
exit !{$1} | !{find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)} | {did push_back(%vector<offer_data_t>, elem(fetch_offers(%vector<addr_t>, $4, false)))} | {elem(fetch_offers(%vector<addr_t>, $4, false)).bid_balance < $2}
exit !{$1} | !{size(%vector<offer_data_t>) < $3} | {did break(loop)} | {find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)}
exit !{$1} | {did push_back(%vector<offer_data_t>, elem(fetch_offers(%vector<addr_t>, $4, false)))} | {elem(fetch_offers(%vector<addr_t>, $4, false)).bid_balance < $2} | {size(%vector<offer_data_t>) < $3}
at %vector<offer_data_t> = get_recent_offers($3, $4) ;; !{$0} ;; !{$1}
at find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3) ;; {$0} | {$1} ;; {size(%vector<offer_data_t>) < $3}
never break(loop) ;; {$0} | {$1} ;; {size(%vector<offer_data_t>) < $3} ;; !{find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)}
at push_back(%vector<addr_t>, elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).second) ;; {$0} | {$1} ;; {size(%vector<offer_data_t>) < $3} ;; {find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)}
at push_back(%vector<offer_data_t>, elem(fetch_offers(%vector<addr_t>, $4, false))) ;; {$0} | {$1} ;; {size(%vector<offer_data_t>) < $3} ;; {find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)} ;; !{elem(fetch_offers(%vector<addr_t>, $4, false)).bid_balance < $2}
at %tuple<hash_t,unsignedint,unsignedint> = back(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>).first ;; {$0} | {$1} ;; {size(%vector<offer_data_t>) < $3} ;; {find_last_range(@offer_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(fold(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), out(make_tuple‥, 0, 0)), 0, 0)), %tuple<hash_t,unsignedint,unsignedint>, %vector<pair<tuple<hash_t,unsignedint,unsignedint>,addr_t>>, $3)}
at sort(begin(%vector<offer_data_t>), end(%vector<offer_data_t>), by({pair($cb1.height, $cb1.address) < pair($cb0.height, $cb0.address)}))
at resize(%vector<offer_data_t>, min($3, size(%vector<offer_data_t>)))
fn mmx::Node::make_trade_entry
each %trade_entry_t.height = $0
each %trade_entry_t.time_stamp = $1.time_stamp
each %trade_entry_t.address = $1.address
each %trade_entry_t.txid = $1.txid
each %trade_entry_t.ask_amount = $1.ask_amount
each %trade_entry_t.bid_amount = get_bid_amount($1)
each %trade_entry_t.price = get_price($1)
each %trade_entry_t.bid_currency = to_addr(read_storage_field($1.address, "bid_currency", 4294967295).first)
each %trade_entry_t.ask_currency = to_addr(read_storage_field($1.address, "ask_currency", 4294967295).first)
never throw …
exit {did %trade_entry_t.address = $1.address}
exit {did %trade_entry_t.ask_amount = $1.ask_amount}
exit {did %trade_entry_t.ask_currency = to_addr(read_storage_field($1.address, "ask_currency", 4294967295).first)}
exit {did %trade_entry_t.bid_amount = get_bid_amount($1)}
exit {did %trade_entry_t.bid_currency = to_addr(read_storage_field($1.address, "bid_currency", 4294967295).first)}
exit {did %trade_entry_t.height = $0}
exit {did %trade_entry_t.price = get_price($1)}
exit {did %trade_entry_t.time_stamp = $1.time_stamp}
exit {did %trade_entry_t.txid = $1.txid}
exit {ret = %trade_entry_t}
at %trade_entry_t.height = $0
at %trade_entry_t.time_stamp = $1.time_stamp
at %trade_entry_t.address = $1.address
at %trade_entry_t.txid = $1.txid
at %trade_entry_t.ask_amount = $1.ask_amount
at %trade_entry_t.bid_amount = get_bid_amount($1)
at %trade_entry_t.price = get_price($1)
at %trade_entry_t.bid_currency = to_addr(read_storage_field($1.address, "bid_currency", 4294967295).first)
at %trade_entry_t.ask_currency = to_addr(read_storage_field($1.address, "ask_currency", 4294967295).first)
fn mmx::Node::get_trade_history
each find_last_range(@trade_log, pair($1, 0), pair(-1, -1), %vector<pair<pair<unsignedint,unsignedint>,trade_log_t>>, $0)
each push_back(%vector<trade_entry_t>, make_trade_entry(elem(%vector<pair<pair<unsignedint,unsignedint>,trade_log_t>>).first.first, elem(%vector<pair<pair<unsignedint,unsignedint>,trade_log_t>>).second))
never break(%vector<pair<pair<unsignedint,unsignedint>,trade_log_t>>)
never throw …
exit {did find_last_range(@trade_log, pair($1, 0), pair(-1, -1), %vector<pair<pair<unsignedint,unsignedint>,trade_log_t>>, $0)}
exit {did push_back(%vector<trade_entry_t>, make_trade_entry(elem(%vector<pair<pair<unsignedint,unsignedint>,trade_log_t>>).first.first, elem(%vector<pair<pair<unsignedint,unsignedint>,trade_log_t>>).second))}
exit {ret = %vector<trade_entry_t>}
at find_last_range(@trade_log, pair($1, 0), pair(-1, -1), %vector<pair<pair<unsignedint,unsignedint>,trade_log_t>>, $0)
at push_back(%vector<trade_entry_t>, make_trade_entry(elem(%vector<pair<pair<unsignedint,unsignedint>,trade_log_t>>).first.first, elem(%vector<pair<pair<unsignedint,unsignedint>,trade_log_t>>).second))
fn mmx::Node::get_trade_history_for
each make_tuple(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), $3, 0) ;; {$0} | {$1}
each make_tuple(out(make_tuple‥, $3, 0), -1, -1) ;; {$0} | {$1}
each find_last_range(@trade_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), $3, 0)), ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(out(make_tuple‥, $3, 0), -1, -1)), %vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>, $2) ;; {$0} | {$1}
each find(@trade_log, pair(get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first)), %trade_log_t, 4294967295) ;; {$0} | {$1}
each push_back(%vector<trade_entry_t>, make_trade_entry(get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first), %trade_log_t)) ;; {$0} | {$1} ;; {find(@trade_log, pair(get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first)), %trade_log_t, 4294967295)}
never break(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>)
never throw …
exit {ret = ite((!{$0} && !{$1}), get_trade_history($2, $3), %vector<trade_entry_t>)}
exit !{$0} | {did find(@trade_log, pair(get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first)), %trade_log_t, 4294967295)}
exit !{$0} | {did find_last_range(@trade_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), $3, 0)), ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(out(make_tuple‥, $3, 0), -1, -1)), %vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>, $2)}
exit !{$0} | {ret = %vector<trade_entry_t>}
exit !{$1} | {did find(@trade_log, pair(get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first)), %trade_log_t, 4294967295)}
exit !{$1} | {did find_last_range(@trade_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), $3, 0)), ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(out(make_tuple‥, $3, 0), -1, -1)), %vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>, $2)}
exit !{$1} | {ret = %vector<trade_entry_t>}
exit !{$0} | !{find(@trade_log, pair(get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first)), %trade_log_t, 4294967295)} | {did push_back(%vector<trade_entry_t>, make_trade_entry(get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first), %trade_log_t))}
exit !{$1} | !{find(@trade_log, pair(get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first)), %trade_log_t, 4294967295)} | {did push_back(%vector<trade_entry_t>, make_trade_entry(get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first), %trade_log_t))}
exit {$0} | {$1} | {ret = get_trade_history($2, $3)}
at find_last_range(@trade_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(ite((!{$0} || !{$1}), ite({$0}, ctor(hash_t, ("ANY" ++ $0)), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ctor(hash_t))), ctor(hash_t, ($1 ++ $0))), $3, 0)), ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(out(make_tuple‥, $3, 0), -1, -1)), %vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>, $2) ;; {$0} | {$1}
at find(@trade_log, pair(get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first)), %trade_log_t, 4294967295) ;; {$0} | {$1}
at push_back(%vector<trade_entry_t>, make_trade_entry(get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first), %trade_log_t)) ;; {$0} | {$1} ;; {find(@trade_log, pair(get1(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first), get2(elem(%vector<pair<tuple<hash_t,unsignedint,unsignedint>,bool>>).first)), %trade_log_t, 4294967295)}
fn mmx::Node::get_swaps
each make_tuple(@params.swap_binary, $0, 0) ;; !{$1} ;; !{$2}
each make_tuple(@params.swap_binary, -1, -1) ;; !{$1} ;; !{$2}
each find_range(@contract_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(@params.swap_binary, $0, 0)), ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(@params.swap_binary, -1, -1)), %vector<addr_t>, $3) ;; !{$1} ;; !{$2}
each make_tuple(ite((!{$1} || !{$2}), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ite({$2}, ctor(hash_t, ("ANY" ++ $2)), ctor(hash_t))), ctor(hash_t, ($1 ++ $2))), $0, 0) ;; {$1} | {$2}
each make_tuple(out(make_tuple‥, $0, 0), -1, -1) ;; {$1} | {$2}
each find_range(@swap_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(ite((!{$1} || !{$2}), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ite({$2}, ctor(hash_t, ("ANY" ++ $2)), ctor(hash_t))), ctor(hash_t, ($1 ++ $2))), $0, 0)), ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(out(make_tuple‥, $0, 0), -1, -1)), %vector<addr_t>, $3) ;; {$1} | {$2}
each push_back(%vector<swap_info_t>, get_swap_info(elem(%vector<addr_t>)))
each sort(begin(%vector<swap_info_t>), end(%vector<swap_info_t>), by({at($cb1.balance, 0) < at($cb0.balance, 0)})) ;; {$1}
each sort(begin(%vector<swap_info_t>), end(%vector<swap_info_t>), by({at($cb1.balance, 1) < at($cb0.balance, 1)})) ;; !{$1} ;; {$2}
each sort(begin(%vector<swap_info_t>), end(%vector<swap_info_t>), by(!{at($cb1.user_total, 0)} | !{at($cb1.user_total, 1)} | {(at($cb1.avg_apy_7d, 0) + at($cb1.avg_apy_7d, 1)) < (at($cb0.avg_apy_7d, 0) + at($cb0.avg_apy_7d, 1))} && {at($cb0.user_total, 0)} && {at($cb0.user_total, 1)})) ;; !{$1} ;; !{$2}
never break(%vector<addr_t>)
never throw …
exit {did push_back(%vector<swap_info_t>, get_swap_info(elem(%vector<addr_t>)))}
exit {ret = %vector<swap_info_t>}
exit !{$1} | {did find_range(@swap_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(ite((!{$1} || !{$2}), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ite({$2}, ctor(hash_t, ("ANY" ++ $2)), ctor(hash_t))), ctor(hash_t, ($1 ++ $2))), $0, 0)), ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(out(make_tuple‥, $0, 0), -1, -1)), %vector<addr_t>, $3)}
exit !{$1} | {did sort(begin(%vector<swap_info_t>), end(%vector<swap_info_t>), by({at($cb1.balance, 0) < at($cb0.balance, 0)}))}
exit !{$2} | {did find_range(@swap_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(ite((!{$1} || !{$2}), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ite({$2}, ctor(hash_t, ("ANY" ++ $2)), ctor(hash_t))), ctor(hash_t, ($1 ++ $2))), $0, 0)), ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(out(make_tuple‥, $0, 0), -1, -1)), %vector<addr_t>, $3)}
exit !{$2} | {$1} | {did sort(begin(%vector<swap_info_t>), end(%vector<swap_info_t>), by({at($cb1.balance, 1) < at($cb0.balance, 1)}))}
exit {$1} | {$2} | {did find_range(@contract_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(@params.swap_binary, $0, 0)), ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(@params.swap_binary, -1, -1)), %vector<addr_t>, $3)}
exit {$1} | {$2} | {did sort(begin(%vector<swap_info_t>), end(%vector<swap_info_t>), by(!{at($cb1.user_total, 0)} | !{at($cb1.user_total, 1)} | {(at($cb1.avg_apy_7d, 0) + at($cb1.avg_apy_7d, 1)) < (at($cb0.avg_apy_7d, 0) + at($cb0.avg_apy_7d, 1))} && {at($cb0.user_total, 0)} && {at($cb0.user_total, 1)}))}
at find_range(@contract_log, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(@params.swap_binary, $0, 0)), ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(@params.swap_binary, -1, -1)), %vector<addr_t>, $3) ;; !{$1} ;; !{$2}
at find_range(@swap_index, ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(ite((!{$1} || !{$2}), ite({$1}, ctor(hash_t, ($1 ++ "ANY")), ite({$2}, ctor(hash_t, ("ANY" ++ $2)), ctor(hash_t))), ctor(hash_t, ($1 ++ $2))), $0, 0)), ctor(tuple<hash_t,unsignedint,unsignedint>, make_tuple(out(make_tuple‥, $0, 0), -1, -1)), %vector<addr_t>, $3) ;; {$1} | {$2}
at push_back(%vector<swap_info_t>, get_swap_info(elem(%vector<addr_t>)))
at sort(begin(%vector<swap_info_t>), end(%vector<swap_info_t>), by({at($cb1.balance, 0) < at($cb0.balance, 0)})) ;; {$1}
at sort(begin(%vector<swap_info_t>), end(%vector<swap_info_t>), by({at($cb1.balance, 1) < at($cb0.balance, 1)})) ;; !{$1} ;; {$2}
at sort(begin(%vector<swap_info_t>), end(%vector<swap_info_t>), by(!{at($cb1.user_total, 0)} | !{at($cb1.user_total, 1)} | {(at($cb1.avg_apy_7d, 0) + at($cb1.avg_apy_7d, 1)) < (at($cb0.avg_apy_7d, 0) + at($cb0.avg_apy_7d, 1))} && {at($cb0.user_total, 0)} && {at($cb0.user_total, 1)})) ;; !{$1} ;; !{$2}
fn mmx::Node::get_swap_info
never break(loop)
never to_addr(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "tokens")), 4294967295), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "tokens")), 4294967295))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), 4294967295))}
at at(%swap_info_t.tokens, fold(0, (~ + 1))) = to_addr(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "tokens")), 4294967295), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "tokens")), 4294967295))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), 4294967295))}
never to_uint(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), 4294967295), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "tokens")), 4294967295))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), 4294967295))}
at at(%swap_info_t.volume, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), 4294967295), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "tokens")), 4294967295))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), 4294967295))}
never get_balance($0, at(%swap_info_t.tokens, fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "tokens")), 4294967295))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), 4294967295))}
at at(%swap_info_t.wallet, fold(0, (~ + 1))) = get_balance($0, at(%swap_info_t.tokens, fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "tokens")), 4294967295))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), 4294967295))}
never to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "balance")), 4294967295), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "balance")), 4294967295))}
at at(%swap_pool_info_t.balance, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "balance")), 4294967295), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "balance")), 4294967295))}
never to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), 4294967295), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), 4294967295))}
at at(%swap_pool_info_t.fees_paid, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), 4294967295), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), 4294967295))}
never to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_claimed")), 4294967295), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_claimed")), 4294967295))}
at at(%swap_pool_info_t.fees_claimed, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_claimed")), 4294967295), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_claimed")), 4294967295))}
never to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "user_total")), 4294967295), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "user_total")), 4294967295))}
at at(%swap_pool_info_t.user_total, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "user_total")), 4294967295), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "user_total")), 4294967295))}
never to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(8640, get_height()) + get_height())), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(8640, get_height()) + get_height())))}
at at(%uint256_t[2], fold(0, (~ + 1))) = (at(%uint256_t[2], fold(0, (~ + 1))) + to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(8640, get_height()) + get_height())), fold(0, (~ + 1))))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(8640, get_height()) + get_height())))}
never to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(60480, get_height()) + get_height())), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(60480, get_height()) + get_height())))}
at at(%uint256_t[2], fold(0, (~ + 1))) = (at(%uint256_t[2], fold(0, (~ + 1))) + to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(60480, get_height()) + get_height())), fold(0, (~ + 1))))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(60480, get_height()) + get_height())))}
never to_uint(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(8640, get_height()) + get_height())), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(8640, get_height()) + get_height())))}
at at(%swap_info_t.volume, fold(0, (~ + 1))) = (-to_uint(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(8640, get_height()) + get_height())), fold(0, (~ + 1)))) + at(%swap_info_t.volume, fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(8640, get_height()) + get_height())))}
never to_uint(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(60480, get_height()) + get_height())), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(60480, get_height()) + get_height())))}
at at(%swap_info_t.volume, fold(0, (~ + 1))) = (-to_uint(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(60480, get_height()) + get_height())), fold(0, (~ + 1)))) + at(%swap_info_t.volume, fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(60480, get_height()) + get_height())))}
each get_contract_as($0, 0, 0)
each %swap_info_t.name = get_contract_as($0, 0, 0).name ;; {get_contract_as($0, 0, 0)}
each %swap_info_t.address = $0 ;; {get_contract_as($0, 0, 0)}
each at(%swap_info_t.tokens, fold(0, (~ + 1))) = to_addr(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "tokens")), 4294967295), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "tokens")), 4294967295))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), 4294967295))}
each at(%swap_info_t.volume, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), 4294967295), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "tokens")), 4294967295))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), 4294967295))}
each at(%swap_info_t.wallet, fold(0, (~ + 1))) = get_balance($0, at(%swap_info_t.tokens, fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "tokens")), 4294967295))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), 4294967295))}
each push_back(%swap_info_t.fee_rates, (to_double(to_uint(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "fee_rates")), 4294967295)))) / pow(2, 64))) ;; {get_contract_as($0, 0, 0)}
each at(%swap_pool_info_t.balance, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "balance")), 4294967295), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "balance")), 4294967295))}
each at(%swap_pool_info_t.fees_paid, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), 4294967295), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), 4294967295))}
each at(%swap_pool_info_t.fees_claimed, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_claimed")), 4294967295), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_claimed")), 4294967295))}
each at(%swap_pool_info_t.user_total, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "user_total")), 4294967295), fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "user_total")), 4294967295))}
each at(%swap_info_t.balance, idx(2)) = (at(%swap_info_t.balance, idx(2)) + at(%swap_pool_info_t.balance, idx(2))) ;; {get_contract_as($0, 0, 0)}
each at(%swap_info_t.fees_paid, idx(2)) = (at(%swap_info_t.fees_paid, idx(2)) + at(%swap_pool_info_t.fees_paid, idx(2))) ;; {get_contract_as($0, 0, 0)}
each at(%swap_info_t.fees_claimed, idx(2)) = (at(%swap_info_t.fees_claimed, idx(2)) + at(%swap_pool_info_t.fees_claimed, idx(2))) ;; {get_contract_as($0, 0, 0)}
each at(%swap_info_t.user_total, idx(2)) = (at(%swap_info_t.user_total, idx(2)) + at(%swap_pool_info_t.user_total, idx(2))) ;; {get_contract_as($0, 0, 0)}
each at(%uint256_t[2], fold(0, (~ + 1))) = (at(%uint256_t[2], fold(0, (~ + 1))) + to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(8640, get_height()) + get_height())), fold(0, (~ + 1))))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(8640, get_height()) + get_height())))}
each at(%uint256_t[2], fold(0, (~ + 1))) = (at(%uint256_t[2], fold(0, (~ + 1))) + to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(60480, get_height()) + get_height())), fold(0, (~ + 1))))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(60480, get_height()) + get_height())))}
each push_back(%swap_info_t.pools, %swap_pool_info_t) ;; {get_contract_as($0, 0, 0)}
each %swap_info_t.volume_1d = %swap_info_t.volume ;; {get_contract_as($0, 0, 0)}
each %swap_info_t.volume_7d = %swap_info_t.volume ;; {get_contract_as($0, 0, 0)}
each at(%swap_info_t.volume, fold(0, (~ + 1))) = (-to_uint(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(8640, get_height()) + get_height())), fold(0, (~ + 1)))) + at(%swap_info_t.volume, fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(8640, get_height()) + get_height())))}
each at(%swap_info_t.volume, fold(0, (~ + 1))) = (-to_uint(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(60480, get_height()) + get_height())), fold(0, (~ + 1)))) + at(%swap_info_t.volume, fold(0, (~ + 1)))) ;; {get_contract_as($0, 0, 0)} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(60480, get_height()) + get_height())))}
each at(%swap_info_t.avg_apy_1d, idx(2)) = (to_double(wide256(((-at(%uint256_t[2], idx(2)) + at(%swap_info_t.fees_paid, idx(2))) * 365))) / to_double(at(%swap_info_t.user_total, idx(2)))) ;; {get_contract_as($0, 0, 0)}
each at(%swap_info_t.avg_apy_7d, idx(2)) = (to_double(wide256(((-at(%uint256_t[2], idx(2)) + at(%swap_info_t.fees_paid, idx(2))) * 52))) / to_double(at(%swap_info_t.user_total, idx(2)))) ;; {get_contract_as($0, 0, 0)}
never break(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "fee_rates")), 4294967295))
never break(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))
value fold(0, (~ + 1))
raise !{get_contract_as($0, 0, 0)}
exit {did %swap_info_t.address = $0}
exit {did %swap_info_t.name = get_contract_as($0, 0, 0).name}
exit {did %swap_info_t.volume_1d = %swap_info_t.volume}
exit {did %swap_info_t.volume_7d = %swap_info_t.volume}
exit {did at(%swap_info_t.avg_apy_1d, idx(2)) = (to_double(wide256(((-at(%uint256_t[2], idx(2)) + at(%swap_info_t.fees_paid, idx(2))) * 365))) / to_double(at(%swap_info_t.user_total, idx(2))))}
exit {did at(%swap_info_t.avg_apy_7d, idx(2)) = (to_double(wide256(((-at(%uint256_t[2], idx(2)) + at(%swap_info_t.fees_paid, idx(2))) * 52))) / to_double(at(%swap_info_t.user_total, idx(2))))}
exit {did at(%swap_info_t.balance, idx(2)) = (at(%swap_info_t.balance, idx(2)) + at(%swap_pool_info_t.balance, idx(2)))}
exit {did at(%swap_info_t.fees_claimed, idx(2)) = (at(%swap_info_t.fees_claimed, idx(2)) + at(%swap_pool_info_t.fees_claimed, idx(2)))}
exit {did at(%swap_info_t.fees_paid, idx(2)) = (at(%swap_info_t.fees_paid, idx(2)) + at(%swap_pool_info_t.fees_paid, idx(2)))}
exit {did at(%swap_info_t.tokens, fold(0, (~ + 1))) = to_addr(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "tokens")), 4294967295), fold(0, (~ + 1))))}
exit {did at(%swap_info_t.user_total, idx(2)) = (at(%swap_info_t.user_total, idx(2)) + at(%swap_pool_info_t.user_total, idx(2)))}
exit {did at(%swap_info_t.volume, fold(0, (~ + 1))) = (-to_uint(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(60480, get_height()) + get_height())), fold(0, (~ + 1)))) + at(%swap_info_t.volume, fold(0, (~ + 1))))}
exit {did at(%swap_info_t.volume, fold(0, (~ + 1))) = (-to_uint(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(8640, get_height()) + get_height())), fold(0, (~ + 1)))) + at(%swap_info_t.volume, fold(0, (~ + 1))))}
exit {did at(%swap_info_t.volume, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), 4294967295), fold(0, (~ + 1))))}
exit {did at(%swap_info_t.wallet, fold(0, (~ + 1))) = get_balance($0, at(%swap_info_t.tokens, fold(0, (~ + 1))))}
exit {did at(%swap_pool_info_t.balance, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "balance")), 4294967295), fold(0, (~ + 1))))}
exit {did at(%swap_pool_info_t.fees_claimed, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_claimed")), 4294967295), fold(0, (~ + 1))))}
exit {did at(%swap_pool_info_t.fees_paid, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), 4294967295), fold(0, (~ + 1))))}
exit {did at(%swap_pool_info_t.user_total, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "user_total")), 4294967295), fold(0, (~ + 1))))}
exit {did at(%uint256_t[2], fold(0, (~ + 1))) = (at(%uint256_t[2], fold(0, (~ + 1))) + to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(8640, get_height()) + get_height())), fold(0, (~ + 1)))))}
exit {did at(%uint256_t[2], fold(0, (~ + 1))) = (at(%uint256_t[2], fold(0, (~ + 1))) + to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(60480, get_height()) + get_height())), fold(0, (~ + 1)))))}
exit {did get_contract_as($0, 0, 0)}
exit {did push_back(%swap_info_t.fee_rates, (to_double(to_uint(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "fee_rates")), 4294967295)))) / pow(2, 64)))}
exit {get_contract_as($0, 0, 0)}
exit {ret = %swap_info_t}
exit !{fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(60480, get_height()) + get_height())))} | {1 < fold(0, (~ + 1))}
exit !{fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(8640, get_height()) + get_height())))} | {1 < fold(0, (~ + 1))}
exit !{fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "balance")), 4294967295))} | {1 < fold(0, (~ + 1))}
exit !{fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_claimed")), 4294967295))} | {1 < fold(0, (~ + 1))}
exit !{fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(60480, get_height()) + get_height())))} | {1 < fold(0, (~ + 1))}
exit !{fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(8640, get_height()) + get_height())))} | {1 < fold(0, (~ + 1))}
exit !{fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), 4294967295))} | {1 < fold(0, (~ + 1))}
exit !{fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "user_total")), 4294967295))} | {1 < fold(0, (~ + 1))}
exit {did push_back(%swap_info_t.pools, %swap_pool_info_t)} | {empty(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))}
exit !{fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "tokens")), 4294967295))} | !{fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), 4294967295))} | {1 < fold(0, (~ + 1))}
at get_contract_as($0, 0, 0)
at %swap_info_t.name = get_contract_as($0, 0, 0).name
at %swap_info_t.address = $0
at at(%swap_info_t.tokens, fold(0, (~ + 1))) = to_addr(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "tokens")), 4294967295), fold(0, (~ + 1)))) ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "tokens")), 4294967295))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), 4294967295))}
at at(%swap_info_t.volume, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), 4294967295), fold(0, (~ + 1)))) ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "tokens")), 4294967295))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), 4294967295))}
at at(%swap_info_t.wallet, fold(0, (~ + 1))) = get_balance($0, at(%swap_info_t.tokens, fold(0, (~ + 1)))) ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "tokens")), 4294967295))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), 4294967295))}
at push_back(%swap_info_t.fee_rates, (to_double(to_uint(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "fee_rates")), 4294967295)))) / pow(2, 64)))
at at(%swap_pool_info_t.balance, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "balance")), 4294967295), fold(0, (~ + 1)))) ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "balance")), 4294967295))}
at at(%swap_pool_info_t.fees_paid, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), 4294967295), fold(0, (~ + 1)))) ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), 4294967295))}
at at(%swap_pool_info_t.fees_claimed, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_claimed")), 4294967295), fold(0, (~ + 1)))) ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_claimed")), 4294967295))}
at at(%swap_pool_info_t.user_total, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "user_total")), 4294967295), fold(0, (~ + 1)))) ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "user_total")), 4294967295))}
at at(%swap_info_t.balance, idx(2)) = (at(%swap_info_t.balance, idx(2)) + at(%swap_pool_info_t.balance, idx(2)))
at at(%swap_info_t.fees_paid, idx(2)) = (at(%swap_info_t.fees_paid, idx(2)) + at(%swap_pool_info_t.fees_paid, idx(2)))
at at(%swap_info_t.fees_claimed, idx(2)) = (at(%swap_info_t.fees_claimed, idx(2)) + at(%swap_pool_info_t.fees_claimed, idx(2)))
at at(%swap_info_t.user_total, idx(2)) = (at(%swap_info_t.user_total, idx(2)) + at(%swap_pool_info_t.user_total, idx(2)))
at at(%uint256_t[2], fold(0, (~ + 1))) = (at(%uint256_t[2], fold(0, (~ + 1))) + to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(8640, get_height()) + get_height())), fold(0, (~ + 1))))) ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(8640, get_height()) + get_height())))}
at at(%uint256_t[2], fold(0, (~ + 1))) = (at(%uint256_t[2], fold(0, (~ + 1))) + to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(60480, get_height()) + get_height())), fold(0, (~ + 1))))) ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(elem(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "state")), 4294967295))), 4294967295), "fees_paid")), (-min(60480, get_height()) + get_height())))}
at push_back(%swap_info_t.pools, %swap_pool_info_t)
at %swap_info_t.volume_1d = %swap_info_t.volume
at %swap_info_t.volume_7d = %swap_info_t.volume
at at(%swap_info_t.volume, fold(0, (~ + 1))) = (-to_uint(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(8640, get_height()) + get_height())), fold(0, (~ + 1)))) + at(%swap_info_t.volume, fold(0, (~ + 1)))) ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(8640, get_height()) + get_height())))}
at at(%swap_info_t.volume, fold(0, (~ + 1))) = (-to_uint(at(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(60480, get_height()) + get_height())), fold(0, (~ + 1)))) + at(%swap_info_t.volume, fold(0, (~ + 1)))) ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage($0, 4294967295), "volume")), (-min(60480, get_height()) + get_height())))}
at at(%swap_info_t.avg_apy_1d, idx(2)) = (to_double(wide256(((-at(%uint256_t[2], idx(2)) + at(%swap_info_t.fees_paid, idx(2))) * 365))) / to_double(at(%swap_info_t.user_total, idx(2))))
at at(%swap_info_t.avg_apy_7d, idx(2)) = (to_double(wide256(((-at(%uint256_t[2], idx(2)) + at(%swap_info_t.fees_paid, idx(2))) * 52))) / to_double(at(%swap_info_t.user_total, idx(2))))
fn mmx::Node::get_swap_user_info
never break(loop)
never to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "balance")), 4294967295), fold(0, (~ + 1)))) ;; {read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "balance")), 4294967295))}
never to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "last_user_total")), 4294967295), fold(0, (~ + 1)))) ;; {read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "last_user_total")), 4294967295))}
never to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "last_fees_paid")), 4294967295), fold(0, (~ + 1)))) ;; {read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "last_fees_paid")), 4294967295))}
each %swap_user_info_t.pool_idx = i32(lower(lower(to_uint(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "pool_idx"))))) ;; {read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))}
each %swap_user_info_t.unlock_height = u32(to_uint(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "unlock_height"))) ;; {read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))}
each at(%swap_user_info_t.balance, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "balance")), 4294967295), fold(0, (~ + 1)))) ;; {read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "balance")), 4294967295))}
each at(%swap_user_info_t.last_user_total, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "last_user_total")), 4294967295), fold(0, (~ + 1)))) ;; {read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "last_user_total")), 4294967295))}
each at(%swap_user_info_t.last_fees_paid, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "last_fees_paid")), 4294967295), fold(0, (~ + 1)))) ;; {read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "last_fees_paid")), 4294967295))}
each %swap_user_info_t.fees_earned = get_swap_fees_earned($0, $1) ;; {read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))}
each %swap_user_info_t.equivalent_liquidity = get_swap_equivalent_liquidity($0, $1) ;; {read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))}
never throw …
value fold(0, (~ + 1))
exit {ret = %swap_user_info_t}
exit !{read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))} | {did %swap_user_info_t.equivalent_liquidity = get_swap_equivalent_liquidity($0, $1)}
exit !{read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))} | {did %swap_user_info_t.fees_earned = get_swap_fees_earned($0, $1)}
exit !{read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))} | {did %swap_user_info_t.pool_idx = i32(lower(lower(to_uint(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "pool_idx")))))}
exit !{read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))} | {did %swap_user_info_t.unlock_height = u32(to_uint(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "unlock_height")))}
exit !{read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))} | {did at(%swap_user_info_t.balance, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "balance")), 4294967295), fold(0, (~ + 1))))}
exit !{read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))} | {did at(%swap_user_info_t.last_fees_paid, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "last_fees_paid")), 4294967295), fold(0, (~ + 1))))}
exit !{read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))} | {did at(%swap_user_info_t.last_user_total, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "last_user_total")), 4294967295), fold(0, (~ + 1))))}
exit !{fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "balance")), 4294967295))} | !{read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))} | {1 < fold(0, (~ + 1))}
exit !{fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "last_fees_paid")), 4294967295))} | !{read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))} | {1 < fold(0, (~ + 1))}
exit !{fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "last_user_total")), 4294967295))} | !{read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))} | {1 < fold(0, (~ + 1))}
at %swap_user_info_t.pool_idx = i32(lower(lower(to_uint(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "pool_idx"))))) ;; {read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))}
at %swap_user_info_t.unlock_height = u32(to_uint(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "unlock_height"))) ;; {read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))}
at at(%swap_user_info_t.balance, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "balance")), 4294967295), fold(0, (~ + 1)))) ;; {read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "balance")), 4294967295))}
at at(%swap_user_info_t.last_user_total, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "last_user_total")), 4294967295), fold(0, (~ + 1)))) ;; {read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "last_user_total")), 4294967295))}
at at(%swap_user_info_t.last_fees_paid, fold(0, (~ + 1))) = to_uint(at(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "last_fees_paid")), 4294967295), fold(0, (~ + 1)))) ;; {read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))} ;; !{1 < fold(0, (~ + 1))} ;; {fold(0, (~ + 1)) < size(read_storage_array($0, to_ref(at(read_storage_object($0, to_ref(read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))), 4294967295), "last_fees_paid")), 4294967295))}
at %swap_user_info_t.fees_earned = get_swap_fees_earned($0, $1) ;; {read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))}
at %swap_user_info_t.equivalent_liquidity = get_swap_equivalent_liquidity($0, $1) ;; {read(@storage, $0, to_ref(read_storage_field($0, "users", 4294967295).first), lookup(@storage, $0, ctor(vm::varptr_t, to_binary($1))))}
fn mmx::Node::get_swap_history
never break(loop)
each get_contract_as(at(get_swap_info($0).tokens, idx(2)), 0, 0)
each at(%array<shared_ptr<contract::TokenBase>,2>, idx(2)) = get_contract_as(at(get_swap_info($0).tokens, idx(2)), 0, 0)
each %swap_entry_t.height = elem(get_exec_history($0, $1, true)).height
each %swap_entry_t.time_stamp = elem(get_exec_history($0, $1, true)).time_stamp
each %swap_entry_t.txid = elem(get_exec_history($0, $1, true)).txid
each %swap_entry_t.user = elem(get_exec_history($0, $1, true)).user
each %swap_entry_t.index = 255
each %swap_entry_t.type = ite({to(at(elem(get_exec_history($0, $1, true)).args, 0))}, "BUY", "SELL") ;; {"trade" == elem(get_exec_history($0, $1, true)).method} ;; {elem(get_exec_history($0, $1, true)).deposit} ;; {1 < size(elem(get_exec_history($0, $1, true)).args)}
each %swap_entry_t.index = u8(to(at(elem(get_exec_history($0, $1, true)).args, 0))) ;; {"trade" == elem(get_exec_history($0, $1, true)).method} ;; {elem(get_exec_history($0, $1, true)).deposit} ;; {1 < size(elem(get_exec_history($0, $1, true)).args)}
each %swap_entry_t.amount = elem(get_exec_history($0, $1, true)).deposit.second ;; {"trade" == elem(get_exec_history($0, $1, true)).method} ;; {elem(get_exec_history($0, $1, true)).deposit} ;; {1 < size(elem(get_exec_history($0, $1, true)).args)}
each %swap_entry_t.user = to(at(elem(get_exec_history($0, $1, true)).args, 1)) ;; {"trade" == elem(get_exec_history($0, $1, true)).method} ;; {elem(get_exec_history($0, $1, true)).deposit} ;; {1 < size(elem(get_exec_history($0, $1, true)).args)}
each %swap_entry_t.type = ite({"add_liquid" == elem(get_exec_history($0, $1, true)).method}, "ADD", "REMOVE") ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} ;; {"add_liquid" == elem(get_exec_history($0, $1, true)).method} | {"rem_liquid" == elem(get_exec_history($0, $1, true)).method}
each %swap_entry_t.index = u8(to(at(elem(get_exec_history($0, $1, true)).args, 0))) ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} ;; {"add_liquid" == elem(get_exec_history($0, $1, true)).method} | {"rem_liquid" == elem(get_exec_history($0, $1, true)).method} ;; !{empty(elem(get_exec_history($0, $1, true)).args)}
each %swap_entry_t.amount = elem(get_exec_history($0, $1, true)).deposit.second ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} ;; {"add_liquid" == elem(get_exec_history($0, $1, true)).method} | {"rem_liquid" == elem(get_exec_history($0, $1, true)).method} ;; !{empty(elem(get_exec_history($0, $1, true)).args)} ;; {elem(get_exec_history($0, $1, true)).deposit}
each %swap_entry_t.amount = to(at(elem(get_exec_history($0, $1, true)).args, 1)) ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} ;; {"add_liquid" == elem(get_exec_history($0, $1, true)).method} | {"rem_liquid" == elem(get_exec_history($0, $1, true)).method} ;; !{empty(elem(get_exec_history($0, $1, true)).args)} ;; !{elem(get_exec_history($0, $1, true)).deposit} ;; {1 < size(elem(get_exec_history($0, $1, true)).args)}
each %swap_entry_t.type = "REMOVE_ALL" ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{"add_liquid" == elem(get_exec_history($0, $1, true)).method} ;; !{"rem_liquid" == elem(get_exec_history($0, $1, true)).method} ;; {"rem_all_liquid" == elem(get_exec_history($0, $1, true)).method}
each %swap_entry_t.type = "PAYOUT" ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{"add_liquid" == elem(get_exec_history($0, $1, true)).method} ;; !{"rem_liquid" == elem(get_exec_history($0, $1, true)).method} ;; !{"rem_all_liquid" == elem(get_exec_history($0, $1, true)).method} ;; {"payout" == elem(get_exec_history($0, $1, true)).method}
each %swap_entry_t.type = "SWITCH" ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{"add_liquid" == elem(get_exec_history($0, $1, true)).method} ;; !{"rem_liquid" == elem(get_exec_history($0, $1, true)).method} ;; !{"rem_all_liquid" == elem(get_exec_history($0, $1, true)).method} ;; !{"payout" == elem(get_exec_history($0, $1, true)).method} ;; {"switch_pool" == elem(get_exec_history($0, $1, true)).method}
each %swap_entry_t.value = to_value(%swap_entry_t.amount, at(%array<shared_ptr<contract::TokenBase>,2>, ite({"trade" == elem(get_exec_history($0, $1, true)).method}, ite((!{1 < size(elem(get_exec_history($0, $1, true)).args)} || !{elem(get_exec_history($0, $1, true)).deposit}), 255, u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))), ite((!{empty(elem(get_exec_history($0, $1, true)).args)} && ({"add_liquid" == elem(get_exec_history($0, $1, true)).method} || {"rem_liquid" == elem(get_exec_history($0, $1, true)).method})), u8(to(at(elem(get_exec_history($0, $1, true)).args, 0))), 255))).decimals) ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | {elem(get_exec_history($0, $1, true)).deposit} ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | {1 < size(elem(get_exec_history($0, $1, true)).args)} ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} ;; !{"add_liquid" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; {"add_liquid" == elem(get_exec_history($0, $1, true)).method} | {"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{empty(elem(get_exec_history($0, $1, true)).args)} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; {at(%array<shared_ptr<contract::TokenBase>,2>, ite({"trade" == elem(get_exec_history($0, $1, true)).method}, ite((!{1 < size(elem(get_exec_history($0, $1, true)).args)} || !{elem(get_exec_history($0, $1, true)).deposit}), 255, u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))), ite((!{empty(elem(get_exec_history($0, $1, true)).args)} && ({"add_liquid" == elem(get_exec_history($0, $1, true)).method} || {"rem_liquid" == elem(get_exec_history($0, $1, true)).method})), u8(to(at(elem(get_exec_history($0, $1, true)).args, 0))), 255)))}
each %swap_entry_t.symbol = at(%array<shared_ptr<contract::TokenBase>,2>, ite({"trade" == elem(get_exec_history($0, $1, true)).method}, ite((!{1 < size(elem(get_exec_history($0, $1, true)).args)} || !{elem(get_exec_history($0, $1, true)).deposit}), 255, u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))), ite((!{empty(elem(get_exec_history($0, $1, true)).args)} && ({"add_liquid" == elem(get_exec_history($0, $1, true)).method} || {"rem_liquid" == elem(get_exec_history($0, $1, true)).method})), u8(to(at(elem(get_exec_history($0, $1, true)).args, 0))), 255))).symbol ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | {elem(get_exec_history($0, $1, true)).deposit} ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | {1 < size(elem(get_exec_history($0, $1, true)).args)} ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} ;; !{"add_liquid" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; {"add_liquid" == elem(get_exec_history($0, $1, true)).method} | {"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{empty(elem(get_exec_history($0, $1, true)).args)} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; {at(%array<shared_ptr<contract::TokenBase>,2>, ite({"trade" == elem(get_exec_history($0, $1, true)).method}, ite((!{1 < size(elem(get_exec_history($0, $1, true)).args)} || !{elem(get_exec_history($0, $1, true)).deposit}), 255, u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))), ite((!{empty(elem(get_exec_history($0, $1, true)).args)} && ({"add_liquid" == elem(get_exec_history($0, $1, true)).method} || {"rem_liquid" == elem(get_exec_history($0, $1, true)).method})), u8(to(at(elem(get_exec_history($0, $1, true)).args, 0))), 255)))}
each %swap_entry_t.value = to_value(%swap_entry_t.amount, @params.decimals) ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | {elem(get_exec_history($0, $1, true)).deposit} ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | {1 < size(elem(get_exec_history($0, $1, true)).args)} ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} ;; !{"add_liquid" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; {"add_liquid" == elem(get_exec_history($0, $1, true)).method} | {"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{empty(elem(get_exec_history($0, $1, true)).args)} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{at(%array<shared_ptr<contract::TokenBase>,2>, ite({"trade" == elem(get_exec_history($0, $1, true)).method}, ite((!{1 < size(elem(get_exec_history($0, $1, true)).args)} || !{elem(get_exec_history($0, $1, true)).deposit}), 255, u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))), ite((!{empty(elem(get_exec_history($0, $1, true)).args)} && ({"add_liquid" == elem(get_exec_history($0, $1, true)).method} || {"rem_liquid" == elem(get_exec_history($0, $1, true)).method})), u8(to(at(elem(get_exec_history($0, $1, true)).args, 0))), 255)))} ;; {at(get_swap_info($0).tokens, ite({"trade" == elem(get_exec_history($0, $1, true)).method}, ite((!{1 < size(elem(get_exec_history($0, $1, true)).args)} || !{elem(get_exec_history($0, $1, true)).deposit}), 255, u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))), ite((!{empty(elem(get_exec_history($0, $1, true)).args)} && ({"add_liquid" == elem(get_exec_history($0, $1, true)).method} || {"rem_liquid" == elem(get_exec_history($0, $1, true)).method})), u8(to(at(elem(get_exec_history($0, $1, true)).args, 0))), 255))) == ctor(addr_t)}
each %swap_entry_t.symbol = "MMX" ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | {elem(get_exec_history($0, $1, true)).deposit} ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | {1 < size(elem(get_exec_history($0, $1, true)).args)} ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} ;; !{"add_liquid" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; {"add_liquid" == elem(get_exec_history($0, $1, true)).method} | {"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{empty(elem(get_exec_history($0, $1, true)).args)} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{at(%array<shared_ptr<contract::TokenBase>,2>, ite({"trade" == elem(get_exec_history($0, $1, true)).method}, ite((!{1 < size(elem(get_exec_history($0, $1, true)).args)} || !{elem(get_exec_history($0, $1, true)).deposit}), 255, u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))), ite((!{empty(elem(get_exec_history($0, $1, true)).args)} && ({"add_liquid" == elem(get_exec_history($0, $1, true)).method} || {"rem_liquid" == elem(get_exec_history($0, $1, true)).method})), u8(to(at(elem(get_exec_history($0, $1, true)).args, 0))), 255)))} ;; {at(get_swap_info($0).tokens, ite({"trade" == elem(get_exec_history($0, $1, true)).method}, ite((!{1 < size(elem(get_exec_history($0, $1, true)).args)} || !{elem(get_exec_history($0, $1, true)).deposit}), 255, u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))), ite((!{empty(elem(get_exec_history($0, $1, true)).args)} && ({"add_liquid" == elem(get_exec_history($0, $1, true)).method} || {"rem_liquid" == elem(get_exec_history($0, $1, true)).method})), u8(to(at(elem(get_exec_history($0, $1, true)).args, 0))), 255))) == ctor(addr_t)}
each push_back(%vector<swap_entry_t>, %swap_entry_t)
never break(get_exec_history($0, $1, true))
never throw …
exit {did %swap_entry_t.height = elem(get_exec_history($0, $1, true)).height}
exit {did %swap_entry_t.time_stamp = elem(get_exec_history($0, $1, true)).time_stamp}
exit {did %swap_entry_t.txid = elem(get_exec_history($0, $1, true)).txid}
exit {did %swap_entry_t.user = elem(get_exec_history($0, $1, true)).user}
exit {did at(%array<shared_ptr<contract::TokenBase>,2>, idx(2)) = get_contract_as(at(get_swap_info($0).tokens, idx(2)), 0, 0)}
exit {did get_contract_as(at(get_swap_info($0).tokens, idx(2)), 0, 0)}
exit {ret = %vector<swap_entry_t>}
exit {did %swap_entry_t.index = 255} | {empty(get_exec_history($0, $1, true))}
exit {did push_back(%vector<swap_entry_t>, %swap_entry_t)} | {empty(get_exec_history($0, $1, true))}
exit !{"add_liquid" == elem(get_exec_history($0, $1, true)).method} | {"trade" == elem(get_exec_history($0, $1, true)).method} | {did %swap_entry_t.type = ite({"add_liquid" == elem(get_exec_history($0, $1, true)).method}, "ADD", "REMOVE")}
exit !{"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | {"trade" == elem(get_exec_history($0, $1, true)).method} | {did %swap_entry_t.type = ite({"add_liquid" == elem(get_exec_history($0, $1, true)).method}, "ADD", "REMOVE")}
exit !{"add_liquid" == elem(get_exec_history($0, $1, true)).method} | {"trade" == elem(get_exec_history($0, $1, true)).method} | {did %swap_entry_t.index = u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} | {empty(elem(get_exec_history($0, $1, true)).args)}
exit !{"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | {"trade" == elem(get_exec_history($0, $1, true)).method} | {did %swap_entry_t.index = u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} | {empty(elem(get_exec_history($0, $1, true)).args)}
exit !{"trade" == elem(get_exec_history($0, $1, true)).method} | !{1 < size(elem(get_exec_history($0, $1, true)).args)} | !{elem(get_exec_history($0, $1, true)).deposit} | {did %swap_entry_t.amount = elem(get_exec_history($0, $1, true)).deposit.second}
exit !{"trade" == elem(get_exec_history($0, $1, true)).method} | !{1 < size(elem(get_exec_history($0, $1, true)).args)} | !{elem(get_exec_history($0, $1, true)).deposit} | {did %swap_entry_t.index = u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))}
exit !{"trade" == elem(get_exec_history($0, $1, true)).method} | !{1 < size(elem(get_exec_history($0, $1, true)).args)} | !{elem(get_exec_history($0, $1, true)).deposit} | {did %swap_entry_t.type = ite({to(at(elem(get_exec_history($0, $1, true)).args, 0))}, "BUY", "SELL")}
exit !{"trade" == elem(get_exec_history($0, $1, true)).method} | !{1 < size(elem(get_exec_history($0, $1, true)).args)} | !{elem(get_exec_history($0, $1, true)).deposit} | {did %swap_entry_t.user = to(at(elem(get_exec_history($0, $1, true)).args, 1))}
exit !{"add_liquid" == elem(get_exec_history($0, $1, true)).method} | !{elem(get_exec_history($0, $1, true)).deposit} | {"trade" == elem(get_exec_history($0, $1, true)).method} | {did %swap_entry_t.amount = elem(get_exec_history($0, $1, true)).deposit.second} | {empty(elem(get_exec_history($0, $1, true)).args)}
exit !{"rem_all_liquid" == elem(get_exec_history($0, $1, true)).method} | {"add_liquid" == elem(get_exec_history($0, $1, true)).method} | {"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | {"trade" == elem(get_exec_history($0, $1, true)).method} | {did %swap_entry_t.type = "REMOVE_ALL"}
exit !{"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | !{elem(get_exec_history($0, $1, true)).deposit} | {"trade" == elem(get_exec_history($0, $1, true)).method} | {did %swap_entry_t.amount = elem(get_exec_history($0, $1, true)).deposit.second} | {empty(elem(get_exec_history($0, $1, true)).args)}
at get_contract_as(at(get_swap_info($0).tokens, idx(2)), 0, 0)
at at(%array<shared_ptr<contract::TokenBase>,2>, idx(2)) = get_contract_as(at(get_swap_info($0).tokens, idx(2)), 0, 0)
at %swap_entry_t.height = elem(get_exec_history($0, $1, true)).height
at %swap_entry_t.time_stamp = elem(get_exec_history($0, $1, true)).time_stamp
at %swap_entry_t.txid = elem(get_exec_history($0, $1, true)).txid
at %swap_entry_t.user = elem(get_exec_history($0, $1, true)).user
at %swap_entry_t.index = 255
at %swap_entry_t.type = ite({to(at(elem(get_exec_history($0, $1, true)).args, 0))}, "BUY", "SELL") ;; {"trade" == elem(get_exec_history($0, $1, true)).method} ;; {elem(get_exec_history($0, $1, true)).deposit} ;; {1 < size(elem(get_exec_history($0, $1, true)).args)}
at %swap_entry_t.index = u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))
at %swap_entry_t.amount = elem(get_exec_history($0, $1, true)).deposit.second ;; {elem(get_exec_history($0, $1, true)).deposit}
at %swap_entry_t.user = to(at(elem(get_exec_history($0, $1, true)).args, 1)) ;; {"trade" == elem(get_exec_history($0, $1, true)).method} ;; {elem(get_exec_history($0, $1, true)).deposit} ;; {1 < size(elem(get_exec_history($0, $1, true)).args)}
at %swap_entry_t.type = ite({"add_liquid" == elem(get_exec_history($0, $1, true)).method}, "ADD", "REMOVE") ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} ;; {"add_liquid" == elem(get_exec_history($0, $1, true)).method} | {"rem_liquid" == elem(get_exec_history($0, $1, true)).method}
at %swap_entry_t.amount = to(at(elem(get_exec_history($0, $1, true)).args, 1)) ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} ;; {"add_liquid" == elem(get_exec_history($0, $1, true)).method} | {"rem_liquid" == elem(get_exec_history($0, $1, true)).method} ;; !{empty(elem(get_exec_history($0, $1, true)).args)} ;; !{elem(get_exec_history($0, $1, true)).deposit} ;; {1 < size(elem(get_exec_history($0, $1, true)).args)}
at %swap_entry_t.type = "REMOVE_ALL" ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{"add_liquid" == elem(get_exec_history($0, $1, true)).method} ;; !{"rem_liquid" == elem(get_exec_history($0, $1, true)).method} ;; {"rem_all_liquid" == elem(get_exec_history($0, $1, true)).method}
at %swap_entry_t.type = "PAYOUT" ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{"add_liquid" == elem(get_exec_history($0, $1, true)).method} ;; !{"rem_liquid" == elem(get_exec_history($0, $1, true)).method} ;; !{"rem_all_liquid" == elem(get_exec_history($0, $1, true)).method} ;; {"payout" == elem(get_exec_history($0, $1, true)).method}
at %swap_entry_t.type = "SWITCH" ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{"add_liquid" == elem(get_exec_history($0, $1, true)).method} ;; !{"rem_liquid" == elem(get_exec_history($0, $1, true)).method} ;; !{"rem_all_liquid" == elem(get_exec_history($0, $1, true)).method} ;; !{"payout" == elem(get_exec_history($0, $1, true)).method} ;; {"switch_pool" == elem(get_exec_history($0, $1, true)).method}
at %swap_entry_t.value = to_value(%swap_entry_t.amount, at(%array<shared_ptr<contract::TokenBase>,2>, ite({"trade" == elem(get_exec_history($0, $1, true)).method}, ite((!{1 < size(elem(get_exec_history($0, $1, true)).args)} || !{elem(get_exec_history($0, $1, true)).deposit}), 255, u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))), ite((!{empty(elem(get_exec_history($0, $1, true)).args)} && ({"add_liquid" == elem(get_exec_history($0, $1, true)).method} || {"rem_liquid" == elem(get_exec_history($0, $1, true)).method})), u8(to(at(elem(get_exec_history($0, $1, true)).args, 0))), 255))).decimals) ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | {elem(get_exec_history($0, $1, true)).deposit} ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | {1 < size(elem(get_exec_history($0, $1, true)).args)} ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} ;; !{"add_liquid" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; {"add_liquid" == elem(get_exec_history($0, $1, true)).method} | {"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{empty(elem(get_exec_history($0, $1, true)).args)} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; {at(%array<shared_ptr<contract::TokenBase>,2>, ite({"trade" == elem(get_exec_history($0, $1, true)).method}, ite((!{1 < size(elem(get_exec_history($0, $1, true)).args)} || !{elem(get_exec_history($0, $1, true)).deposit}), 255, u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))), ite((!{empty(elem(get_exec_history($0, $1, true)).args)} && ({"add_liquid" == elem(get_exec_history($0, $1, true)).method} || {"rem_liquid" == elem(get_exec_history($0, $1, true)).method})), u8(to(at(elem(get_exec_history($0, $1, true)).args, 0))), 255)))}
at %swap_entry_t.symbol = at(%array<shared_ptr<contract::TokenBase>,2>, ite({"trade" == elem(get_exec_history($0, $1, true)).method}, ite((!{1 < size(elem(get_exec_history($0, $1, true)).args)} || !{elem(get_exec_history($0, $1, true)).deposit}), 255, u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))), ite((!{empty(elem(get_exec_history($0, $1, true)).args)} && ({"add_liquid" == elem(get_exec_history($0, $1, true)).method} || {"rem_liquid" == elem(get_exec_history($0, $1, true)).method})), u8(to(at(elem(get_exec_history($0, $1, true)).args, 0))), 255))).symbol ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | {elem(get_exec_history($0, $1, true)).deposit} ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | {1 < size(elem(get_exec_history($0, $1, true)).args)} ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} ;; !{"add_liquid" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; {"add_liquid" == elem(get_exec_history($0, $1, true)).method} | {"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{empty(elem(get_exec_history($0, $1, true)).args)} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; {at(%array<shared_ptr<contract::TokenBase>,2>, ite({"trade" == elem(get_exec_history($0, $1, true)).method}, ite((!{1 < size(elem(get_exec_history($0, $1, true)).args)} || !{elem(get_exec_history($0, $1, true)).deposit}), 255, u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))), ite((!{empty(elem(get_exec_history($0, $1, true)).args)} && ({"add_liquid" == elem(get_exec_history($0, $1, true)).method} || {"rem_liquid" == elem(get_exec_history($0, $1, true)).method})), u8(to(at(elem(get_exec_history($0, $1, true)).args, 0))), 255)))}
at %swap_entry_t.value = to_value(%swap_entry_t.amount, @params.decimals) ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | {elem(get_exec_history($0, $1, true)).deposit} ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | {1 < size(elem(get_exec_history($0, $1, true)).args)} ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} ;; !{"add_liquid" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; {"add_liquid" == elem(get_exec_history($0, $1, true)).method} | {"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{empty(elem(get_exec_history($0, $1, true)).args)} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{at(%array<shared_ptr<contract::TokenBase>,2>, ite({"trade" == elem(get_exec_history($0, $1, true)).method}, ite((!{1 < size(elem(get_exec_history($0, $1, true)).args)} || !{elem(get_exec_history($0, $1, true)).deposit}), 255, u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))), ite((!{empty(elem(get_exec_history($0, $1, true)).args)} && ({"add_liquid" == elem(get_exec_history($0, $1, true)).method} || {"rem_liquid" == elem(get_exec_history($0, $1, true)).method})), u8(to(at(elem(get_exec_history($0, $1, true)).args, 0))), 255)))} ;; {at(get_swap_info($0).tokens, ite({"trade" == elem(get_exec_history($0, $1, true)).method}, ite((!{1 < size(elem(get_exec_history($0, $1, true)).args)} || !{elem(get_exec_history($0, $1, true)).deposit}), 255, u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))), ite((!{empty(elem(get_exec_history($0, $1, true)).args)} && ({"add_liquid" == elem(get_exec_history($0, $1, true)).method} || {"rem_liquid" == elem(get_exec_history($0, $1, true)).method})), u8(to(at(elem(get_exec_history($0, $1, true)).args, 0))), 255))) == ctor(addr_t)}
at %swap_entry_t.symbol = "MMX" ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | {elem(get_exec_history($0, $1, true)).deposit} ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | {1 < size(elem(get_exec_history($0, $1, true)).args)} ;; !{"trade" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} ;; !{"add_liquid" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | !{1 < u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; {"add_liquid" == elem(get_exec_history($0, $1, true)).method} | {"rem_liquid" == elem(get_exec_history($0, $1, true)).method} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{empty(elem(get_exec_history($0, $1, true)).args)} | {"trade" == elem(get_exec_history($0, $1, true)).method} ;; !{at(%array<shared_ptr<contract::TokenBase>,2>, ite({"trade" == elem(get_exec_history($0, $1, true)).method}, ite((!{1 < size(elem(get_exec_history($0, $1, true)).args)} || !{elem(get_exec_history($0, $1, true)).deposit}), 255, u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))), ite((!{empty(elem(get_exec_history($0, $1, true)).args)} && ({"add_liquid" == elem(get_exec_history($0, $1, true)).method} || {"rem_liquid" == elem(get_exec_history($0, $1, true)).method})), u8(to(at(elem(get_exec_history($0, $1, true)).args, 0))), 255)))} ;; {at(get_swap_info($0).tokens, ite({"trade" == elem(get_exec_history($0, $1, true)).method}, ite((!{1 < size(elem(get_exec_history($0, $1, true)).args)} || !{elem(get_exec_history($0, $1, true)).deposit}), 255, u8(to(at(elem(get_exec_history($0, $1, true)).args, 0)))), ite((!{empty(elem(get_exec_history($0, $1, true)).args)} && ({"add_liquid" == elem(get_exec_history($0, $1, true)).method} || {"rem_liquid" == elem(get_exec_history($0, $1, true)).method})), u8(to(at(elem(get_exec_history($0, $1, true)).args, 0))), 255))) == ctor(addr_t)}
at push_back(%vector<swap_entry_t>, %swap_entry_t)
fn mmx::Node::get_swap_trade_estimate
each push_back(%vector<Variant>, $1) ;; {$1 < size(get_swap_info($0).tokens)}
each push_back(%vector<Variant>, to_string($0)) ;; {$1 < size(get_swap_info($0).tokens)}
each push_back(%vector<Variant>, 0) ;; {$1 < size(get_swap_info($0).tokens)}
each push_back(%vector<Variant>, $3) ;; {$1 < size(get_swap_info($0).tokens)}
raise !{$1 < size(get_swap_info($0).tokens)}
exit {$1 < size(get_swap_info($0).tokens)}
exit {did push_back(%vector<Variant>, $1)}
exit {did push_back(%vector<Variant>, $3)}
exit {did push_back(%vector<Variant>, 0)}
exit {ret = init(array<uint128,2>, init(uint128[2], (-at(to(call_contract($0, "trade", %vector<Variant>, 0, pair(at(get_swap_info($0).tokens, $1), $2))), 1) + at(to(call_contract($0, "trade", %vector<Variant>, 0, pair(at(get_swap_info($0).tokens, $1), $2))), 0)), at(to(call_contract($0, "trade", %vector<Variant>, 0, pair(at(get_swap_info($0).tokens, $1), $2))), 1)))}
at push_back(%vector<Variant>, $1)
at push_back(%vector<Variant>, to_string($0))
at push_back(%vector<Variant>, 0)
at push_back(%vector<Variant>, $3)
fn mmx::Node::get_swap_fees_earned
never throw …
exit {ret = to(call_contract($0, "get_earned_fees", ctor(vector<Variant>, init(Variant[1], ctor(Variant, to_string($1)))), 0, 0))}
fn mmx::Node::get_swap_equivalent_liquidity
never throw …
exit {ret = to(call_contract($0, "rem_all_liquid", ctor(vector<Variant>, init(Variant[1], ctor(Variant, true))), $1, 0))}
fn mmx::Node::get_swap_liquidity_by
never break(loop)
never break($0)
each find_range(@swap_liquid_map, pair(elem($0), ctor(addr_t)), pair(elem($0), ones()), %vector<pair<pair<addr_t,addr_t>,array<uint128,2>>,allocator<pair<pair<addr_t,addr_t>,array<uint128,2>>>>, 18446744073709551615)
each at(at(%map<addr_t,array<uint128,2>>, elem(%vector<pair<pair<addr_t,addr_t>,array<uint128,2>>,allocator<pair<pair<addr_t,addr_t>,array<uint128,2>>>>).first.second), idx(2)) = (at(at(%map<addr_t,array<uint128,2>>, elem(%vector<pair<pair<addr_t,addr_t>,array<uint128,2>>,allocator<pair<pair<addr_t,addr_t>,array<uint128,2>>>>).first.second), idx(2)) + at(elem(%vector<pair<pair<addr_t,addr_t>,array<uint128,2>>,allocator<pair<pair<addr_t,addr_t>,array<uint128,2>>>>).second, idx(2)))
each at(at(%map<addr_t,array<pair<addr_t,uint128>,2>>, elem(%map<addr_t,array<uint128,2>>).first), idx(2)) = pair(at(get_swap_info(elem(%map<addr_t,array<uint128,2>>).first).tokens, idx(2)), at(elem(%map<addr_t,array<uint128,2>>).second, idx(2)))
never break(%vector<pair<pair<addr_t,addr_t>,array<uint128,2>>,allocator<pair<pair<addr_t,addr_t>,array<uint128,2>>>>)
never break(%map<addr_t,array<uint128,2>>)
never throw …
exit {did at(at(%map<addr_t,array<pair<addr_t,uint128>,2>>, elem(%map<addr_t,array<uint128,2>>).first), idx(2)) = pair(at(get_swap_info(elem(%map<addr_t,array<uint128,2>>).first).tokens, idx(2)), at(elem(%map<addr_t,array<uint128,2>>).second, idx(2)))}
exit {did at(at(%map<addr_t,array<uint128,2>>, elem(%vector<pair<pair<addr_t,addr_t>,array<uint128,2>>,allocator<pair<pair<addr_t,addr_t>,array<uint128,2>>>>).first.second), idx(2)) = (at(at(%map<addr_t,array<uint128,2>>, elem(%vector<pair<pair<addr_t,addr_t>,array<uint128,2>>,allocator<pair<pair<addr_t,addr_t>,array<uint128,2>>>>).first.second), idx(2)) + at(elem(%vector<pair<pair<addr_t,addr_t>,array<uint128,2>>,allocator<pair<pair<addr_t,addr_t>,array<uint128,2>>>>).second, idx(2)))}
exit {did find_range(@swap_liquid_map, pair(elem($0), ctor(addr_t)), pair(elem($0), ones()), %vector<pair<pair<addr_t,addr_t>,array<uint128,2>>,allocator<pair<pair<addr_t,addr_t>,array<uint128,2>>>>, 18446744073709551615)}
exit {ret = %map<addr_t,array<pair<addr_t,uint128>,2>>}
at find_range(@swap_liquid_map, pair(elem($0), ctor(addr_t)), pair(elem($0), ones()), %vector<pair<pair<addr_t,addr_t>,array<uint128,2>>,allocator<pair<pair<addr_t,addr_t>,array<uint128,2>>>>, 18446744073709551615)
at at(at(%map<addr_t,array<uint128,2>>, elem(%vector<pair<pair<addr_t,addr_t>,array<uint128,2>>,allocator<pair<pair<addr_t,addr_t>,array<uint128,2>>>>).first.second), idx(2)) = (at(at(%map<addr_t,array<uint128,2>>, elem(%vector<pair<pair<addr_t,addr_t>,array<uint128,2>>,allocator<pair<pair<addr_t,addr_t>,array<uint128,2>>>>).first.second), idx(2)) + at(elem(%vector<pair<pair<addr_t,addr_t>,array<uint128,2>>,allocator<pair<pair<addr_t,addr_t>,array<uint128,2>>>>).second, idx(2)))
at at(at(%map<addr_t,array<pair<addr_t,uint128>,2>>, elem(%map<addr_t,array<uint128,2>>).first), idx(2)) = pair(at(get_swap_info(elem(%map<addr_t,array<uint128,2>>).first).tokens, idx(2)), at(elem(%map<addr_t,array<uint128,2>>).second, idx(2)))
