tus src/WebAPI.cpp
fn mmx::require
raise !{has_permission($0, to_string_value_full($1))}
exit {has_permission($0, to_string_value_full($1))}
fn mmx::WebAPI::http_request_async
never to_object(fold(rbegin(@log_history), (~ + 1)).first) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; {"/node/log" == $1} ;; !{fold(rbegin(@log_history), (~ + 1)) == rend(@log_history)} ;; !{99 < size(%vector<Object>)} | {has($0.query_params, "limit")} ;; !{has($0.query_params, "limit")} | {size(%vector<Object>) < max(0, from_string(at($0.query_params, "limit")))} ;; !{99 < size(%vector<Object>)} | {size(%vector<Object>) < max(0, from_string(at($0.query_params, "limit")))} ;; !{from_string(at($0.query_params, "level")) < fold(rbegin(@log_history), (~ + 1)).first.level} | !{has($0.query_params, "level")} ;; !{3 < fold(rbegin(@log_history), (~ + 1)).first.level} | {has($0.query_params, "level")} ;; !{has($0.query_params, "module")} | {at($0.query_params, "module") == fold(rbegin(@log_history), (~ + 1)).first.module}
at at(to_object(fold(rbegin(@log_history), (~ + 1)).first), "id") = fold(rbegin(@log_history), (~ + 1)).second ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; {"/node/log" == $1} ;; !{fold(rbegin(@log_history), (~ + 1)) == rend(@log_history)} ;; !{99 < size(%vector<Object>)} | {has($0.query_params, "limit")} ;; !{has($0.query_params, "limit")} | {size(%vector<Object>) < max(0, from_string(at($0.query_params, "limit")))} ;; !{99 < size(%vector<Object>)} | {size(%vector<Object>) < max(0, from_string(at($0.query_params, "limit")))} ;; !{from_string(at($0.query_params, "level")) < fold(rbegin(@log_history), (~ + 1)).first.level} | !{has($0.query_params, "level")} ;; !{3 < fold(rbegin(@log_history), (~ + 1)).first.level} | {has($0.query_params, "level")} ;; !{has($0.query_params, "module")} | {at($0.query_params, "module") == fold(rbegin(@log_history), (~ + 1)).first.module}
at push_back(%vector<Object>, to_object(fold(rbegin(@log_history), (~ + 1)).first)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; {"/node/log" == $1} ;; !{fold(rbegin(@log_history), (~ + 1)) == rend(@log_history)} ;; !{99 < size(%vector<Object>)} | {has($0.query_params, "limit")} ;; !{has($0.query_params, "limit")} | {size(%vector<Object>) < max(0, from_string(at($0.query_params, "limit")))} ;; !{99 < size(%vector<Object>)} | {size(%vector<Object>) < max(0, from_string(at($0.query_params, "limit")))} ;; !{from_string(at($0.query_params, "level")) < fold(rbegin(@log_history), (~ + 1)).first.level} | !{has($0.query_params, "level")} ;; !{3 < fold(rbegin(@log_history), (~ + 1)).first.level} | {has($0.query_params, "level")} ;; !{has($0.query_params, "module")} | {at($0.query_params, "module") == fold(rbegin(@log_history), (~ + 1)).first.module}
at push_back(%vector<string,allocator<string>>, to_string(at($cb0, fold(0, (~ + 1))))) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; {"/wallet/address" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; {1 < get_param($0.query_params, "limit", 1)} ;; {fold(0, (~ + 1)) < size($cb0)} ;; {fold(0, (~ + 1)) < get_param($0.query_params, "limit", 1)}
at at(%Object, "index") = fold(0, (~ + 1), elem($cb0).second) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; {"/wallet/swap/liquid" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; {elem(elem($cb0).second).second}
never render(fold(rbegin(@proof_history), (~ + 1)).first, 0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; {"/farm/proofs" == $1} ;; !{fold(rbegin(@proof_history), (~ + 1)) == rend(@proof_history)} ;; !{-2 < size(%vector<Object>)} | {has($0.query_params, "limit")} ;; !{has($0.query_params, "limit")} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))} ;; !{-2 < size(%vector<Object>)} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))}
never render(fold(rbegin(@proof_history), (~ + 1)).first.proof, 0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; {"/farm/proofs" == $1} ;; !{fold(rbegin(@proof_history), (~ + 1)) == rend(@proof_history)} ;; !{-2 < size(%vector<Object>)} | {has($0.query_params, "limit")} ;; !{has($0.query_params, "limit")} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))} ;; !{-2 < size(%vector<Object>)} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))} ;; {fold(rbegin(@proof_history), (~ + 1)).first.proof}
at at(render(fold(rbegin(@proof_history), (~ + 1)).first, 0), "proof") = render(fold(rbegin(@proof_history), (~ + 1)).first.proof, 0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; {"/farm/proofs" == $1} ;; !{fold(rbegin(@proof_history), (~ + 1)) == rend(@proof_history)} ;; !{-2 < size(%vector<Object>)} | {has($0.query_params, "limit")} ;; !{has($0.query_params, "limit")} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))} ;; !{-2 < size(%vector<Object>)} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))} ;; {fold(rbegin(@proof_history), (~ + 1)).first.proof}
at at(render(fold(rbegin(@proof_history), (~ + 1)).first, 0), "id") = fold(rbegin(@proof_history), (~ + 1)).second ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; {"/farm/proofs" == $1} ;; !{fold(rbegin(@proof_history), (~ + 1)) == rend(@proof_history)} ;; !{-2 < size(%vector<Object>)} | {has($0.query_params, "limit")} ;; !{has($0.query_params, "limit")} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))} ;; !{-2 < size(%vector<Object>)} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))}
at at(render(fold(rbegin(@proof_history), (~ + 1)).first, 0), "harvester") = fold(rbegin(@proof_history), (~ + 1)).first.harvester ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; {"/farm/proofs" == $1} ;; !{fold(rbegin(@proof_history), (~ + 1)) == rend(@proof_history)} ;; !{-2 < size(%vector<Object>)} | {has($0.query_params, "limit")} ;; !{has($0.query_params, "limit")} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))} ;; !{-2 < size(%vector<Object>)} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))}
at at(render(fold(rbegin(@proof_history), (~ + 1)).first, 0), "lookup_time_ms") = fold(rbegin(@proof_history), (~ + 1)).first.lookup_time_ms ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; {"/farm/proofs" == $1} ;; !{fold(rbegin(@proof_history), (~ + 1)) == rend(@proof_history)} ;; !{-2 < size(%vector<Object>)} | {has($0.query_params, "limit")} ;; !{has($0.query_params, "limit")} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))} ;; !{-2 < size(%vector<Object>)} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))}
at push_back(%vector<Object>, render(fold(rbegin(@proof_history), (~ + 1)).first, 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; {"/farm/proofs" == $1} ;; !{fold(rbegin(@proof_history), (~ + 1)) == rend(@proof_history)} ;; !{-2 < size(%vector<Object>)} | {has($0.query_params, "limit")} ;; !{has($0.query_params, "limit")} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))} ;; !{-2 < size(%vector<Object>)} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))}
each respond_status($2, 503, "lost sync with network") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; !{@is_synced} | {(-@synced_since + @curr_height) < @sync_delay}
each from_string(as_string($0.payload), %Object) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each require(get_session($0.session.vsid), ctor(permission_e, permission_e::READ_CONFIG)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; {"/config/get" == $1}
each respond($2, get_config(get_param($0.query_params, "key", ctor(string)), true)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; {"/config/get" == $1} ;; !{empty(get_param($0.query_params, "key", ctor(string)))}
each %Object.field = ctor(map<string,Variant,less<string>,allocator<pair<string,Variant>>>, begin(get_all_configs(true)), end(get_all_configs(true))) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; {"/config/get" == $1} ;; {empty(get_param($0.query_params, "key", ctor(string)))}
each respond($2, %Object) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; {"/config/get" == $1} ;; {empty(get_param($0.query_params, "key", ctor(string)))}
each require(get_session($0.session.vsid), ctor(permission_e, permission_e::WRITE_CONFIG)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; {"/config/set" == $1}
each set_config(to_string_value(at(%Object.field, "key")), at(%Object.field, "value")) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; {"/config/set" == $1} ;; {has(%Object.field, "key")} ;; {has(%Object.field, "value")} ;; !{is_config_protected(to_string_value(at(%Object.field, "key")))}
each at(read_config_file(((@config_path ++ substr(to_string_value(at(%Object.field, "key")), 0, find(to_string_value(at(%Object.field, "key")), 46, 0))) ++ ".json")), substr(to_string_value(at(%Object.field, "key")), (find(to_string_value(at(%Object.field, "key")), 46, 0) + 1), npos)) = at(%Object.field, "value") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; {"/config/set" == $1} ;; {has(%Object.field, "key")} ;; {has(%Object.field, "value")} ;; !{is_config_protected(to_string_value(at(%Object.field, "key")))} ;; !{at(%Object, "tmp_only")} ;; !{find(to_string_value(at(%Object.field, "key")), 46, 0) == npos} ;; {substr(to_string_value(at(%Object.field, "key")), (find(to_string_value(at(%Object.field, "key")), 46, 0) + 1), npos)}
each write_config_file(((@config_path ++ substr(to_string_value(at(%Object.field, "key")), 0, find(to_string_value(at(%Object.field, "key")), 46, 0))) ++ ".json"), read_config_file(((@config_path ++ substr(to_string_value(at(%Object.field, "key")), 0, find(to_string_value(at(%Object.field, "key")), 46, 0))) ++ ".json"))) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; {"/config/set" == $1} ;; {has(%Object.field, "key")} ;; {has(%Object.field, "value")} ;; !{is_config_protected(to_string_value(at(%Object.field, "key")))} ;; !{at(%Object, "tmp_only")} ;; !{find(to_string_value(at(%Object.field, "key")), 46, 0) == npos} ;; {substr(to_string_value(at(%Object.field, "key")), (find(to_string_value(at(%Object.field, "key")), 46, 0) + 1), npos)}
each respond_status($2, 200, "") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; {"/config/set" == $1} ;; {has(%Object.field, "key")} ;; {has(%Object.field, "value")} ;; !{is_config_protected(to_string_value(at(%Object.field, "key")))}
each respond_status($2, 400, "POST config/set {key, value, [tmp_only]}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; {"/config/set" == $1} ;; !{has(%Object.field, "key")} | !{has(%Object.field, "value")}
each require(get_session($0.session.vsid), ctor(permission_e, permission_e::SHUTDOWN)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; {"/exit" == $1} | {"/node/exit" == $1}
each shutdown() ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; {"/exit" == $1} | {"/node/exit" == $1}
each respond_status($2, 200, "") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; {"/exit" == $1} | {"/node/exit" == $1}
each respond($2, render(@params, 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; {"/chain/info" == $1}
each get_network_info(@node, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; {"/node/info" == $1}
each %Object = render($cb0, 0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; {"/node/info" == $1} ;; {$cb0}
each at(%Object, "time") = (f64($cb0.time_stamp) / 1000) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; {"/node/info" == $1} ;; {$cb0}
each at(%Object, "block_reward") = to_amount_object($cb0.block_reward, @params.decimals) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; {"/node/info" == $1} ;; {$cb0}
each at(%Object, "average_txfee") = to_amount_object($cb0.average_txfee, @params.decimals) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; {"/node/info" == $1} ;; {$cb0}
each respond($2, %Object) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; {"/node/info" == $1}
each require(get_session($0.session.vsid), ctor(permission_e, permission_e::VIEW)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; {"/node/log" == $1}
each at(to_object(fold(rbegin(@log_history), (~ + 1)).first), "id") = fold(rbegin(@log_history), (~ + 1)).second ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; {"/node/log" == $1} ;; !{fold(rbegin(@log_history), (~ + 1)) == rend(@log_history)} ;; !{99 < size(%vector<Object>)} | {has($0.query_params, "limit")} ;; !{has($0.query_params, "limit")} | {size(%vector<Object>) < max(0, from_string(at($0.query_params, "limit")))} ;; !{99 < size(%vector<Object>)} | {size(%vector<Object>) < max(0, from_string(at($0.query_params, "limit")))} ;; !{from_string(at($0.query_params, "level")) < fold(rbegin(@log_history), (~ + 1)).first.level} | !{has($0.query_params, "level")} ;; !{3 < fold(rbegin(@log_history), (~ + 1)).first.level} | {has($0.query_params, "level")} ;; !{has($0.query_params, "module")} | {at($0.query_params, "module") == fold(rbegin(@log_history), (~ + 1)).first.module}
each push_back(%vector<Object>, to_object(fold(rbegin(@log_history), (~ + 1)).first)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; {"/node/log" == $1} ;; !{fold(rbegin(@log_history), (~ + 1)) == rend(@log_history)} ;; !{99 < size(%vector<Object>)} | {has($0.query_params, "limit")} ;; !{has($0.query_params, "limit")} | {size(%vector<Object>) < max(0, from_string(at($0.query_params, "limit")))} ;; !{99 < size(%vector<Object>)} | {size(%vector<Object>) < max(0, from_string(at($0.query_params, "limit")))} ;; !{from_string(at($0.query_params, "level")) < fold(rbegin(@log_history), (~ + 1)).first.level} | !{has($0.query_params, "level")} ;; !{3 < fold(rbegin(@log_history), (~ + 1)).first.level} | {has($0.query_params, "level")} ;; !{has($0.query_params, "module")} | {at($0.query_params, "module") == fold(rbegin(@log_history), (~ + 1)).first.module}
each respond($2, render_value(%vector<Object>, 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; {"/node/log" == $1}
each get_height(@node, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; {"/node/graph/blocks" == $1} ;; !{1000 < u32(ite({has($0.query_params, "limit")}, max(0, from_string(at($0.query_params, "limit"))), 1000))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each render_block_graph($2, u32(ite({has($0.query_params, "limit")}, max(0, from_string(at($0.query_params, "limit"))), 1000)), u32(ite({has($0.query_params, "step")}, max(0, from_string(at($0.query_params, "step"))), 90)), $cb0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; {"/node/graph/blocks" == $1} ;; !{1000 < u32(ite({has($0.query_params, "limit")}, max(0, from_string(at($0.query_params, "limit"))), 1000))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each get_header(@node, from_string_value(at($0.query_params, "hash")), bind(&render_header, this, $2, std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; {"/header" == $1} ;; {has($0.query_params, "hash")}
each get_header_at(@node, from_string_value(at($0.query_params, "height")), bind(&render_header, this, $2, std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; {"/header" == $1} ;; !{has($0.query_params, "hash")} ;; {has($0.query_params, "height")}
each respond_status($2, 400, "header?hash|height") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; {"/header" == $1} ;; !{has($0.query_params, "hash")} ;; !{has($0.query_params, "height")}
each render_headers($2, get_param($0.query_params, "limit", 0), get_param($0.query_params, "offset", 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; {"/headers" == $1} ;; !{1000 < get_param($0.query_params, "limit", 0)} ;; !{100 < get_param($0.query_params, "limit", 0)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {get_param($0.query_params, "offset", 0)} ;; {get_param($0.query_params, "limit", 0)}
each get_height(@node, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; {"/headers" == $1} ;; !{1000 < get_param($0.query_params, "limit", 0)} ;; !{100 < get_param($0.query_params, "limit", 0)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; !{get_param($0.query_params, "limit", 0)} | !{get_param($0.query_params, "offset", 0)} ;; !{get_param($0.query_params, "offset", 0)}
each render_headers($2, ite({get_param($0.query_params, "limit", 0)}, get_param($0.query_params, "limit", 0), 20), $cb0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; {"/headers" == $1} ;; !{1000 < get_param($0.query_params, "limit", 0)} ;; !{100 < get_param($0.query_params, "limit", 0)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; !{get_param($0.query_params, "limit", 0)} | !{get_param($0.query_params, "offset", 0)} ;; !{get_param($0.query_params, "offset", 0)}
each respond_status($2, 400, "headers?limit|offset") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; {"/headers" == $1} ;; !{1000 < get_param($0.query_params, "limit", 0)} ;; !{100 < get_param($0.query_params, "limit", 0)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; !{get_param($0.query_params, "limit", 0)} | !{get_param($0.query_params, "offset", 0)} ;; {get_param($0.query_params, "offset", 0)}
each get_block(@node, from_string_value(at($0.query_params, "hash")), bind(&render_block, this, $2, std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; {"/block" == $1} ;; {has($0.query_params, "hash")}
each get_block_at(@node, from_string_value(at($0.query_params, "height")), bind(&render_block, this, $2, std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; {"/block" == $1} ;; !{has($0.query_params, "hash")} ;; {has($0.query_params, "height")}
each respond_status($2, 400, "block?hash|height") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; {"/block" == $1} ;; !{has($0.query_params, "hash")} ;; !{has($0.query_params, "height")}
each render_blocks($2, max(0, from_string(at($0.query_params, "limit"))), from_string(at($0.query_params, "offset"))) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; {"/blocks" == $1} ;; {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {has($0.query_params, "limit")} ;; {has($0.query_params, "offset")}
each get_height(@node, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; {"/blocks" == $1} ;; {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; !{has($0.query_params, "limit")} | !{has($0.query_params, "offset")} ;; !{has($0.query_params, "offset")}
each render_blocks($2, u32(ite({has($0.query_params, "limit")}, max(0, from_string(at($0.query_params, "limit"))), 20)), $cb0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; {"/blocks" == $1} ;; {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; !{has($0.query_params, "limit")} | !{has($0.query_params, "offset")} ;; !{has($0.query_params, "offset")}
each respond_status($2, 400, "blocks?limit|offset") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; {"/blocks" == $1} ;; {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; !{has($0.query_params, "limit")} | !{has($0.query_params, "offset")} ;; {has($0.query_params, "offset")}
each get_tx_info(@node, from_string_value(at($0.query_params, "id")), bind(&render_transaction, this, $2, std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; {"/transaction" == $1} ;; {has($0.query_params, "id")}
each respond_status($2, 400, "transaction?id") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; {"/transaction" == $1} ;; !{has($0.query_params, "id")}
each get_tx_ids_at(@node, get_param($0.query_params, "height", 0), bind(&render_transactions, this, $2, ite({get_param($0.query_params, "limit", 0)}, get_param($0.query_params, "limit", 0), ite({has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}, -1, 100)), get_param($0.query_params, "offset", 0), std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; {"/transactions" == $1} ;; {get_param($0.query_params, "height", 0)} ;; !{1000 < get_param($0.query_params, "limit", 0)} | !{get_param($0.query_params, "limit", 0)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each get_tx_ids(@node, ite({get_param($0.query_params, "limit", 0)}, get_param($0.query_params, "limit", 0), 100), bind(&render_transactions, this, $2, ite({get_param($0.query_params, "limit", 0)}, get_param($0.query_params, "limit", 0), 100), 0, std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; {"/transactions" == $1} ;; !{get_param($0.query_params, "height", 0)} ;; !{1000 < get_param($0.query_params, "limit", 0)} | !{get_param($0.query_params, "limit", 0)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each get_total_balances(@node, ctor(vector<addr_t>, init(addr_t[1], get_param($0.query_params, "id", 0))), ctor(set<addr_t>), get_param($0.query_params, "limit", 100), bind(&render_address, this, $2, get_param($0.query_params, "id", 0), std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; {"/address" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each respond_status($2, 400, "address?id|limit") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; {"/address" == $1} ;; !{get_param($0.query_params, "id", 0)}
each insert(%set<addr_t>, get_param($0.query_params, "currency", 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; {"/balance" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {get_param($0.query_params, "currency", 0)}
each get_contract_balances(@node, get_param($0.query_params, "id", 0), %set<addr_t>, get_param($0.query_params, "limit", 100), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; {"/balance" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each render_balances($2, get_param($0.query_params, "currency", 0), $cb0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; {"/balance" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each respond_status($2, 400, "balance?id|currency|limit") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; {"/balance" == $1} ;; !{get_param($0.query_params, "id", 0)}
each get_context(ctor(unordered_set<addr_t>, init(addr_t[1], get_param($0.query_params, "id", ctor(addr_t))), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; {"/supply" == $1}
each get_total_supply(@node, get_param($0.query_params, "id", ctor(addr_t)), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; {"/supply" == $1}
each respond($2, render(to_amount_object($cb0, get_currency($cb0, get_param($0.query_params, "id", ctor(addr_t))).decimals), 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; {"/supply" == $1}
each get_contract(@node, from_string_value(at($0.query_params, "id")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; {"/contract" == $1} ;; {has($0.query_params, "id")}
each respond($2, render_value($cb0, 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; {"/contract" == $1} ;; {has($0.query_params, "id")}
each respond_status($2, 400, "contract?id") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; {"/contract" == $1} ;; !{has($0.query_params, "id")}
each get_plot_nft_info(@node, get_param($0.query_params, "id", ctor(addr_t)), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; {"/plotnft" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(addr_t)))}
each respond($2, render_value($cb0, 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; {"/plotnft" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(addr_t)))} ;; {$cb0}
each respond_status($2, 204, "") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; {"/plotnft" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(addr_t)))} ;; !{$cb0}
each respond_status($2, 400, "plotnft?id") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; {"/plotnft" == $1} ;; {is_zero(get_param($0.query_params, "id", ctor(addr_t)))}
each get_swaps(@node, get_param($0.query_params, "since", 0), get_param($0.query_params, "token", 0), get_param($0.query_params, "currency", 0), u32(get_param($0.query_params, "limit", 50)), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; {"/swap/list" == $1} ;; !{100 < u32(get_param($0.query_params, "limit", 50))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each insert(%unordered_set<addr_t>, at(elem($cb0).tokens, 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; {"/swap/list" == $1} ;; !{100 < u32(get_param($0.query_params, "limit", 50))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each insert(%unordered_set<addr_t>, at(elem($cb0).tokens, 1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; {"/swap/list" == $1} ;; !{100 < u32(get_param($0.query_params, "limit", 50))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each get_context(%unordered_set<addr_t>, $2, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; {"/swap/list" == $1} ;; !{100 < u32(get_param($0.query_params, "limit", 50))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each respond($2, render_value($cb0, $cb0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; {"/swap/list" == $1} ;; !{100 < u32(get_param($0.query_params, "limit", 50))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each get_swap_info(@node, from_string_value(at($0.query_params, "id")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; {"/swap/info" == $1} ;; {has($0.query_params, "id")}
each get_context(ctor(unordered_set<addr_t>, init(addr_t[2], at($cb0.tokens, 0), at($cb0.tokens, 1)), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; {"/swap/info" == $1} ;; {has($0.query_params, "id")}
each at(%vector<int>, idx(2)) = find_currency($cb0, at($cb0.tokens, idx(2))).decimals ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; {"/swap/info" == $1} ;; {has($0.query_params, "id")} ;; {find_currency($cb0, at($cb0.tokens, idx(2)))}
each at(%vector<string,allocator<string>>, idx(2)) = find_currency($cb0, at($cb0.tokens, idx(2))).symbol ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; {"/swap/info" == $1} ;; {has($0.query_params, "id")} ;; {find_currency($cb0, at($cb0.tokens, idx(2)))}
each at(render_object($cb0, $cb0), "symbols") = %vector<string,allocator<string>> ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; {"/swap/info" == $1} ;; {has($0.query_params, "id")}
each at(render_object($cb0, $cb0), "decimals") = %vector<int> ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; {"/swap/info" == $1} ;; {has($0.query_params, "id")}
each respond($2, render_object($cb0, $cb0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; {"/swap/info" == $1} ;; {has($0.query_params, "id")}
each respond_status($2, 400, "swap/info?id") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; {"/swap/info" == $1} ;; !{has($0.query_params, "id")}
each get_swap_info(@node, from_string_value(at($0.query_params, "id")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; {"/swap/user_info" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "user")}
each get_context(ctor(unordered_set<addr_t>, init(addr_t[2], at($cb0.tokens, 0), at($cb0.tokens, 1)), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; {"/swap/user_info" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "user")}
each get_swap_user_info(@node, from_string_value(at($0.query_params, "id")), from_string_value(at($0.query_params, "user")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; {"/swap/user_info" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "user")}
each at(%vector<string,allocator<string>>, idx(2)) = find_currency($cb0, at($cb0.tokens, idx(2))).symbol ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; {"/swap/user_info" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "user")} ;; {find_currency($cb0, at($cb0.tokens, idx(2)))}
each at(%vector<Object>, idx(2)) = to_amount_object(at($cb0.balance, idx(2)), find_currency($cb0, at($cb0.tokens, idx(2))).decimals) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; {"/swap/user_info" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "user")} ;; {find_currency($cb0, at($cb0.tokens, idx(2)))}
each at(%vector<Object>, idx(2)) = to_amount_object(at($cb0.fees_earned, idx(2)), find_currency($cb0, at($cb0.tokens, idx(2))).decimals) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; {"/swap/user_info" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "user")} ;; {find_currency($cb0, at($cb0.tokens, idx(2)))}
each at(%vector<Object>, idx(2)) = to_amount_object(at($cb0.equivalent_liquidity, idx(2)), find_currency($cb0, at($cb0.tokens, idx(2))).decimals) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; {"/swap/user_info" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "user")} ;; {find_currency($cb0, at($cb0.tokens, idx(2)))}
each at(%Object, "pool_idx") = $cb0.pool_idx ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; {"/swap/user_info" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "user")}
each at(%Object, "tokens") = render_value($cb0.tokens, 0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; {"/swap/user_info" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "user")}
each at(%Object, "symbols") = %vector<string,allocator<string>> ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; {"/swap/user_info" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "user")}
each at(%Object, "balance") = %vector<Object> ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; {"/swap/user_info" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "user")}
each at(%Object, "fees_earned") = %vector<Object> ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; {"/swap/user_info" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "user")}
each at(%Object, "equivalent_liquidity") = %vector<Object> ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; {"/swap/user_info" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "user")}
each at(%Object, "unlock_height") = $cb0.unlock_height ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; {"/swap/user_info" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "user")}
each at(%Object, "swap") = render_value($cb0, $cb0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; {"/swap/user_info" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "user")}
each respond($2, %Object) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; {"/swap/user_info" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "user")}
each respond_status($2, 400, "swap/user_info?id|user") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; {"/swap/user_info" == $1} ;; !{has($0.query_params, "id")} | !{has($0.query_params, "user")}
each get_swap_history(@node, get_param($0.query_params, "id", 0), get_param($0.query_params, "limit", 100), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; {"/swap/history" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each respond($2, render_value($cb0, get_context())) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; {"/swap/history" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each respond_status($2, 400, "swap/history?id|limit") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; {"/swap/history" == $1} ;; !{get_param($0.query_params, "id", 0)}
each get_swap_info(@node, from_string_value(at($0.query_params, "id")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; {"/swap/trade_estimate" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "index")} ;; {has($0.query_params, "amount")} ;; !{1 < from_string_value(at($0.query_params, "index"))}
each get_context(ctor(unordered_set<addr_t>, init(addr_t[2], at($cb0.tokens, 0), at($cb0.tokens, 1)), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; {"/swap/trade_estimate" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "index")} ;; {has($0.query_params, "amount")} ;; !{1 < from_string_value(at($0.query_params, "index"))}
each get_swap_trade_estimate(@node, $cb0.address, from_string_value(at($0.query_params, "index")), to_amount(from_string_value(at($0.query_params, "amount")), find_currency($cb0, at($cb0.tokens, from_string_value(at($0.query_params, "index")))).decimals), ite({has($0.query_params, "iters")}, from_string_value(at($0.query_params, "iters")), 20), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; {"/swap/trade_estimate" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "index")} ;; {has($0.query_params, "amount")} ;; !{1 < from_string_value(at($0.query_params, "index"))} ;; {find_currency($cb0, at($cb0.tokens, from_string_value(at($0.query_params, "index"))))} ;; {find_currency($cb0, at($cb0.tokens, ((from_string_value(at($0.query_params, "index")) + 1) % 2)))}
each at(%Object, "trade") = to_amount_object_str(at($cb0, 0), find_currency($cb0, at($cb0.tokens, ((from_string_value(at($0.query_params, "index")) + 1) % 2))).decimals) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; {"/swap/trade_estimate" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "index")} ;; {has($0.query_params, "amount")} ;; !{1 < from_string_value(at($0.query_params, "index"))} ;; {find_currency($cb0, at($cb0.tokens, from_string_value(at($0.query_params, "index"))))} ;; {find_currency($cb0, at($cb0.tokens, ((from_string_value(at($0.query_params, "index")) + 1) % 2)))}
each at(%Object, "fee") = to_amount_object_str(at($cb0, 1), find_currency($cb0, at($cb0.tokens, ((from_string_value(at($0.query_params, "index")) + 1) % 2))).decimals) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; {"/swap/trade_estimate" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "index")} ;; {has($0.query_params, "amount")} ;; !{1 < from_string_value(at($0.query_params, "index"))} ;; {find_currency($cb0, at($cb0.tokens, from_string_value(at($0.query_params, "index"))))} ;; {find_currency($cb0, at($cb0.tokens, ((from_string_value(at($0.query_params, "index")) + 1) % 2)))}
each at(%Object, "fee_percent") = ((100 * to_value(at($cb0, 1), find_currency($cb0, at($cb0.tokens, ((from_string_value(at($0.query_params, "index")) + 1) % 2))).decimals)) / (to_value(at($cb0, 0), find_currency($cb0, at($cb0.tokens, ((from_string_value(at($0.query_params, "index")) + 1) % 2))).decimals) + to_value(at($cb0, 1), find_currency($cb0, at($cb0.tokens, ((from_string_value(at($0.query_params, "index")) + 1) % 2))).decimals))) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; {"/swap/trade_estimate" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "index")} ;; {has($0.query_params, "amount")} ;; !{1 < from_string_value(at($0.query_params, "index"))} ;; {find_currency($cb0, at($cb0.tokens, from_string_value(at($0.query_params, "index"))))} ;; {find_currency($cb0, at($cb0.tokens, ((from_string_value(at($0.query_params, "index")) + 1) % 2)))}
each at(%Object, "avg_price") = (to_value(at($cb0, 0), find_currency($cb0, at($cb0.tokens, ((from_string_value(at($0.query_params, "index")) + 1) % 2))).decimals) / to_value(from_string_value(at($0.query_params, "amount")))) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; {"/swap/trade_estimate" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "index")} ;; {has($0.query_params, "amount")} ;; !{1 < from_string_value(at($0.query_params, "index"))} ;; {find_currency($cb0, at($cb0.tokens, from_string_value(at($0.query_params, "index"))))} ;; {find_currency($cb0, at($cb0.tokens, ((from_string_value(at($0.query_params, "index")) + 1) % 2)))}
each respond($2, render_value(%Object, 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; {"/swap/trade_estimate" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "index")} ;; {has($0.query_params, "amount")} ;; !{1 < from_string_value(at($0.query_params, "index"))} ;; {find_currency($cb0, at($cb0.tokens, from_string_value(at($0.query_params, "index"))))} ;; {find_currency($cb0, at($cb0.tokens, ((from_string_value(at($0.query_params, "index")) + 1) % 2)))}
each respond_status($2, 400, "swap/trade_estimate?id|index|amount|iters") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; {"/swap/trade_estimate" == $1} ;; !{has($0.query_params, "amount")} | !{has($0.query_params, "id")} | !{has($0.query_params, "index")}
each get_offer(@node, from_string_value(at($0.query_params, "id")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; {"/offer/trade_estimate" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "amount")}
each get_context(ctor(unordered_set<addr_t>, init(addr_t[2], $cb0.bid_currency, $cb0.ask_currency), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; {"/offer/trade_estimate" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "amount")}
each at(%Object, "input") = to_amount_object_str(to_amount(from_string_value(at($0.query_params, "amount")), find_currency($cb0, $cb0.ask_currency).decimals), find_currency($cb0, $cb0.ask_currency).decimals) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; {"/offer/trade_estimate" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "amount")} ;; {find_currency($cb0, $cb0.bid_currency)} ;; {find_currency($cb0, $cb0.ask_currency)}
each at(%Object, "trade") = to_amount_object_str(get_bid_amount($cb0, to_amount(from_string_value(at($0.query_params, "amount")), find_currency($cb0, $cb0.ask_currency).decimals)), find_currency($cb0, $cb0.bid_currency).decimals) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; {"/offer/trade_estimate" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "amount")} ;; {find_currency($cb0, $cb0.bid_currency)} ;; {find_currency($cb0, $cb0.ask_currency)}
each at(%Object, "next_input") = to_amount_object_str(get_ask_amount($cb0, (get_bid_amount($cb0, to_amount(from_string_value(at($0.query_params, "amount")), find_currency($cb0, $cb0.ask_currency).decimals)) + 1)), find_currency($cb0, $cb0.ask_currency).decimals) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; {"/offer/trade_estimate" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "amount")} ;; {find_currency($cb0, $cb0.bid_currency)} ;; {find_currency($cb0, $cb0.ask_currency)} ;; !{to_amount(from_string_value(at($0.query_params, "amount")), find_currency($cb0, $cb0.ask_currency).decimals)} | {(to_double(get_bid_amount($cb0, to_amount(from_string_value(at($0.query_params, "amount")), find_currency($cb0, $cb0.ask_currency).decimals))) / to_double(to_amount(from_string_value(at($0.query_params, "amount")), find_currency($cb0, $cb0.ask_currency).decimals))) < (to_double((get_bid_amount($cb0, to_amount(from_string_value(at($0.query_params, "amount")), find_currency($cb0, $cb0.ask_currency).decimals)) + 1)) / to_double(get_ask_amount($cb0, (get_bid_amount($cb0, to_amount(from_string_value(at($0.query_params, "amount")), find_currency($cb0, $cb0.ask_currency).decimals)) + 1))))}
each at(%Object, "next_input") = to_amount_object_str((to_amount(from_string_value(at($0.query_params, "amount")), find_currency($cb0, $cb0.ask_currency).decimals) + 1), find_currency($cb0, $cb0.ask_currency).decimals) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; {"/offer/trade_estimate" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "amount")} ;; {find_currency($cb0, $cb0.bid_currency)} ;; {find_currency($cb0, $cb0.ask_currency)} ;; {to_amount(from_string_value(at($0.query_params, "amount")), find_currency($cb0, $cb0.ask_currency).decimals)} ;; !{(to_double(get_bid_amount($cb0, to_amount(from_string_value(at($0.query_params, "amount")), find_currency($cb0, $cb0.ask_currency).decimals))) / to_double(to_amount(from_string_value(at($0.query_params, "amount")), find_currency($cb0, $cb0.ask_currency).decimals))) < (to_double((get_bid_amount($cb0, to_amount(from_string_value(at($0.query_params, "amount")), find_currency($cb0, $cb0.ask_currency).decimals)) + 1)) / to_double(get_ask_amount($cb0, (get_bid_amount($cb0, to_amount(from_string_value(at($0.query_params, "amount")), find_currency($cb0, $cb0.ask_currency).decimals)) + 1))))}
each at(%Object, "inv_price") = to_string($cb0.inv_price) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; {"/offer/trade_estimate" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "amount")}
each respond($2, render_value(%Object, 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; {"/offer/trade_estimate" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "amount")}
each respond_status($2, 400, "offer/trade_estimate?id|amount") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; {"/offer/trade_estimate" == $1} ;; !{has($0.query_params, "amount")} | !{has($0.query_params, "id")}
each get_farmer_ranking(@node, get_param($0.query_params, "limit", 100), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; {"/farmers" == $1} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each at(%Object, "farmer_key") = to_string(elem($cb0).first) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; {"/farmers" == $1} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each at(%Object, "block_count") = elem($cb0).second ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; {"/farmers" == $1} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each push_back(%vector<Object>, %Object) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; {"/farmers" == $1} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each respond($2, render_value(%vector<Object>, 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; {"/farmers" == $1} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each get_farmed_block_summary(@node, ctor(vector<pubkey_t>, init(pubkey_t[1], get_param($0.query_params, "id", ctor(pubkey_t)))), get_param($0.query_params, "since", 0), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; {"/farmer" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(pubkey_t)))}
each at(%Object, "farmer_key") = to_string(get_param($0.query_params, "id", ctor(pubkey_t))) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; {"/farmer" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(pubkey_t)))}
each at(%Object, "block_count") = $cb0.num_blocks ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; {"/farmer" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(pubkey_t)))}
each at(%Object, "total_reward") = $cb0.total_rewards ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; {"/farmer" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(pubkey_t)))}
each at(%Object, "total_reward_value") = to_value($cb0.total_rewards, @params.decimals) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; {"/farmer" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(pubkey_t)))}
each at(%Object, "address") = to_string(elem($cb0.reward_map).first) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; {"/farmer" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(pubkey_t)))}
each at(%Object, "amount") = elem($cb0.reward_map).second ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; {"/farmer" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(pubkey_t)))}
each at(%Object, "value") = to_value(elem($cb0.reward_map).second, @params.decimals) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; {"/farmer" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(pubkey_t)))}
each push_back(%vector<Object>, %Object) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; {"/farmer" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(pubkey_t)))}
each at(%Object, "rewards") = %vector<Object> ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; {"/farmer" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(pubkey_t)))}
each respond($2, %Object) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; {"/farmer" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(pubkey_t)))}
each respond_status($2, 400, "farmer?id|since") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; {"/farmer" == $1} ;; {is_zero(get_param($0.query_params, "id", ctor(pubkey_t)))}
each get_farmed_blocks(@node, ctor(vector<pubkey_t>, init(pubkey_t[1], get_param($0.query_params, "id", ctor(pubkey_t)))), false, get_param($0.query_params, "since", 0), get_param($0.query_params, "limit", 50), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; {"/farmer/blocks" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(pubkey_t)))}
each respond($2, render_value($cb0, get_context())) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; {"/farmer/blocks" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(pubkey_t)))}
each respond_status($2, 400, "farmer/blocks?id|since") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; {"/farmer/blocks" == $1} ;; {is_zero(get_param($0.query_params, "id", ctor(pubkey_t)))}
each %query_filter_t.limit = get_param($0.query_params, "limit", 100) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; {"/address/history" == $1} ;; {get_param($0.query_params, "id", 0)}
each %query_filter_t.since = get_param($0.query_params, "since", 0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; {"/address/history" == $1} ;; {get_param($0.query_params, "id", 0)}
each %query_filter_t.until = get_param($0.query_params, "until", 4294967295) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; {"/address/history" == $1} ;; {get_param($0.query_params, "id", 0)}
each %query_filter_t.type = get_param($0.query_params, "type", 0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; {"/address/history" == $1} ;; {get_param($0.query_params, "id", 0)}
each %query_filter_t.memo = get_param($0.query_params, "memo", 0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; {"/address/history" == $1} ;; {get_param($0.query_params, "id", 0)}
each insert(%query_filter_t.currency, get_param($0.query_params, "currency", 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; {"/address/history" == $1} ;; {get_param($0.query_params, "id", 0)} ;; {get_param($0.query_params, "currency", 0)}
each %query_filter_t.max_search = 10000 ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; {"/address/history" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; !{1000 < get_param($0.query_params, "limit", 100)} ;; {-1 < get_param($0.query_params, "limit", 100)}
each %query_filter_t.max_search = 1000000 ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; {"/address/history" == $1} ;; {get_param($0.query_params, "id", 0)} ;; {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each get_history(@node, ctor(vector<addr_t>, init(addr_t[1], get_param($0.query_params, "id", 0))), %query_filter_t, bind(&render_history, this, $2, std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; {"/address/history" == $1} ;; {get_param($0.query_params, "id", 0)}
each respond_status($2, 400, "address/history?id|limit|since|until|type|memo|currency") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; {"/address/history" == $1} ;; !{get_param($0.query_params, "id", 0)}
each get_exec_history(@node, get_param($0.query_params, "id", 0), get_param($0.query_params, "limit", 100), true, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; {"/contract/exec_history" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each insert(%unordered_set<addr_t>, elem($cb0).deposit.first) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; {"/contract/exec_history" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {elem($cb0).deposit}
each get_context(%unordered_set<addr_t>, $2, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; {"/contract/exec_history" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each respond($2, render_value($cb0, $cb0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; {"/contract/exec_history" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each respond_status($2, 400, "contract/exec_history?id|limit") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; {"/contract/exec_history" == $1} ;; !{get_param($0.query_params, "id", 0)}
each require(get_session($0.session.vsid), ctor(permission_e, permission_e::CONST_REQUEST)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; {"/wallet/keys" == $1}
each get_farmer_keys(@wallet, u32(from_string(at($0.query_params, "index"))), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; {"/wallet/keys" == $1} ;; {has($0.query_params, "index")}
each at(%Object, "farmer_public_key") = to_string($cb0.second) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; {"/wallet/keys" == $1} ;; {has($0.query_params, "index")}
each respond($2, %Object) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; {"/wallet/keys" == $1} ;; {has($0.query_params, "index")}
each respond_status($2, 400, "wallet/keys?index") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; {"/wallet/keys" == $1} ;; !{has($0.query_params, "index")}
each require(get_session($0.session.vsid), permission_e::SPENDING) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; {"/wallet/seed" == $1}
each get_mnemonic_seed(@wallet, u32(from_string(at($0.query_params, "index"))), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; {"/wallet/seed" == $1} ;; {has($0.query_params, "index")}
each at(%Object, "words") = $cb0 ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; {"/wallet/seed" == $1} ;; {has($0.query_params, "index")}
each at(%Object, "string") = words_to_string($cb0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; {"/wallet/seed" == $1} ;; {has($0.query_params, "index")}
each respond($2, %Object) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; {"/wallet/seed" == $1} ;; {has($0.query_params, "index")}
each respond_status($2, 400, "wallet/seed?index") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; {"/wallet/seed" == $1} ;; !{has($0.query_params, "index")}
each require(get_session($0.session.vsid), ctor(permission_e, permission_e::CONST_REQUEST)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; {"/wallet/accounts" == $1}
each get_all_accounts(@wallet, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; {"/wallet/accounts" == $1}
each respond($2, render_value($cb0, 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; {"/wallet/accounts" == $1}
each require(get_session($0.session.vsid), ctor(permission_e, permission_e::CONST_REQUEST)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; {"/wallet/account" == $1}
each get_account(@wallet, u32(from_string(at($0.query_params, "index"))), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; {"/wallet/account" == $1} ;; {has($0.query_params, "index")}
each respond($2, render($cb0, 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; {"/wallet/account" == $1} ;; {has($0.query_params, "index")}
each respond_status($2, 400, "wallet/account?index") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; {"/wallet/account" == $1} ;; !{has($0.query_params, "index")}
each require(get_session($0.session.vsid), ctor(permission_e, permission_e::CONST_REQUEST)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; {"/wallet/balance" == $1}
each get_balances(@wallet, u32(from_string(at($0.query_params, "index"))), ({from_string(at($0.query_params, "with_zero"))} && {has($0.query_params, "with_zero")}), bind(&render_balances, this, $2, ite({has($0.query_params, "currency")}, from_string(at($0.query_params, "currency")), 0), std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; {"/wallet/balance" == $1} ;; {has($0.query_params, "index")}
each respond_status($2, 400, "wallet/balance?index|confirm|currency") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; {"/wallet/balance" == $1} ;; !{has($0.query_params, "index")}
each require(get_session($0.session.vsid), ctor(permission_e, permission_e::CONST_REQUEST)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; {"/wallet/contracts" == $1}
each get_contracts_owned(@wallet, get_param($0.query_params, "index", -1), get_param($0.query_params, "type", 0), ite({get_param($0.query_params, "type_hash", 0)}, get_param($0.query_params, "type_hash", 0), 0), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; {"/wallet/contracts" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; {get_param($0.query_params, "owned", 0)}
each at(render_object(elem($cb0).second, get_context()), "address") = to_string(elem($cb0).first) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; {"/wallet/contracts" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; {get_param($0.query_params, "owned", 0)} ;; {elem($cb0).second}
each push_back(%vector<Object>, render_object(elem($cb0).second, get_context())) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; {"/wallet/contracts" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; {get_param($0.query_params, "owned", 0)} ;; {elem($cb0).second}
each respond($2, ctor(Variant, %vector<Object>)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; {"/wallet/contracts" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; {get_param($0.query_params, "owned", 0)}
each get_contracts(@wallet, get_param($0.query_params, "index", -1), get_param($0.query_params, "type", 0), ite({get_param($0.query_params, "type_hash", 0)}, get_param($0.query_params, "type_hash", 0), 0), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; {"/wallet/contracts" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; !{get_param($0.query_params, "owned", 0)}
each at(render_object(elem($cb0).second, get_context()), "address") = to_string(elem($cb0).first) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; {"/wallet/contracts" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; !{get_param($0.query_params, "owned", 0)} ;; {elem($cb0).second}
each push_back(%vector<Object>, render_object(elem($cb0).second, get_context())) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; {"/wallet/contracts" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; !{get_param($0.query_params, "owned", 0)} ;; {elem($cb0).second}
each respond($2, ctor(Variant, %vector<Object>)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; {"/wallet/contracts" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; !{get_param($0.query_params, "owned", 0)}
each respond_status($2, 400, "wallet/contracts?index") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; {"/wallet/contracts" == $1} ;; !{-1 < get_param($0.query_params, "index", -1)}
each require(get_session($0.session.vsid), ctor(permission_e, permission_e::CONST_REQUEST)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; {"/wallet/address" == $1}
each get_address(@wallet, get_param($0.query_params, "index", -1), get_param($0.query_params, "offset", 0), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; {"/wallet/address" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; !{1 < get_param($0.query_params, "limit", 1)}
each respond($2, ctor(Variant, to_string($cb0))) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; {"/wallet/address" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; !{1 < get_param($0.query_params, "limit", 1)}
each get_all_addresses(@wallet, get_param($0.query_params, "index", -1), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; {"/wallet/address" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; {1 < get_param($0.query_params, "limit", 1)}
each push_back(%vector<string,allocator<string>>, to_string(at($cb0, fold(0, (~ + 1))))) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; {"/wallet/address" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; {1 < get_param($0.query_params, "limit", 1)} ;; {fold(0, (~ + 1)) < size($cb0)} ;; {fold(0, (~ + 1)) < get_param($0.query_params, "limit", 1)}
each respond($2, ctor(Variant, %vector<string,allocator<string>>)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; {"/wallet/address" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; {1 < get_param($0.query_params, "limit", 1)}
each respond_status($2, 400, "wallet/address?index|limit|offset") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; {"/wallet/address" == $1} ;; !{-1 < get_param($0.query_params, "index", -1)}
each require(get_session($0.session.vsid), ctor(permission_e, permission_e::CONST_REQUEST)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; {"/wallet/tokens" == $1}
each get_token_list(@wallet, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; {"/wallet/tokens" == $1}
each get_context(ctor(unordered_set<addr_t>, begin($cb0), end($cb0), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; {"/wallet/tokens" == $1}
each at(%Object, "currency") = to_string(elem($cb0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; {"/wallet/tokens" == $1}
each at(%Object, "name") = find_currency($cb0, elem($cb0)).name ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; {"/wallet/tokens" == $1} ;; {find_currency($cb0, elem($cb0))}
each at(%Object, "symbol") = find_currency($cb0, elem($cb0)).symbol ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; {"/wallet/tokens" == $1} ;; {find_currency($cb0, elem($cb0))}
each at(%Object, "decimals") = find_currency($cb0, elem($cb0)).decimals ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; {"/wallet/tokens" == $1} ;; {find_currency($cb0, elem($cb0))}
each at(%Object, "is_nft") = find_currency($cb0, elem($cb0)).is_nft ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; {"/wallet/tokens" == $1} ;; {find_currency($cb0, elem($cb0))}
each at(%Object, "is_native") = {ctor(addr_t) == elem($cb0)} ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; {"/wallet/tokens" == $1} ;; {find_currency($cb0, elem($cb0))}
each push_back(%vector<Object>, %Object) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; {"/wallet/tokens" == $1}
each respond($2, ctor(Variant, %vector<Object>)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; {"/wallet/tokens" == $1}
each require(get_session($0.session.vsid), ctor(permission_e, permission_e::CONST_REQUEST)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; {"/wallet/history" == $1}
each %query_filter_t.max_search = 1000000 ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; {"/wallet/history" == $1} ;; {-1 < get_param($0.query_params, "index", -1)}
each %query_filter_t.with_pending = true ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; {"/wallet/history" == $1} ;; {-1 < get_param($0.query_params, "index", -1)}
each %query_filter_t.limit = get_param($0.query_params, "limit", 100) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; {"/wallet/history" == $1} ;; {-1 < get_param($0.query_params, "index", -1)}
each %query_filter_t.since = get_param($0.query_params, "since", 0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; {"/wallet/history" == $1} ;; {-1 < get_param($0.query_params, "index", -1)}
each %query_filter_t.until = get_param($0.query_params, "until", 4294967295) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; {"/wallet/history" == $1} ;; {-1 < get_param($0.query_params, "index", -1)}
each %query_filter_t.type = get_param($0.query_params, "type", 0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; {"/wallet/history" == $1} ;; {-1 < get_param($0.query_params, "index", -1)}
each %query_filter_t.memo = get_param($0.query_params, "memo", 0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; {"/wallet/history" == $1} ;; {-1 < get_param($0.query_params, "index", -1)}
each insert(%query_filter_t.currency, get_param($0.query_params, "currency", 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; {"/wallet/history" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; {get_param($0.query_params, "currency", 0)}
each get_history(@wallet, get_param($0.query_params, "index", -1), %query_filter_t, bind(&render_history, this, $2, std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; {"/wallet/history" == $1} ;; {-1 < get_param($0.query_params, "index", -1)}
each respond_status($2, 400, "wallet/history?index|limit|since|until|type|memo|currency") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; {"/wallet/history" == $1} ;; !{-1 < get_param($0.query_params, "index", -1)}
each require(get_session($0.session.vsid), ctor(permission_e, permission_e::CONST_REQUEST)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; {"/wallet/tx_history" == $1}
each get_tx_log(@wallet, get_param($0.query_params, "index", -1), get_param($0.query_params, "limit", 100), bind(&render_tx_history, this, $2, std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; {"/wallet/tx_history" == $1} ;; {-1 < get_param($0.query_params, "index", -1)}
each respond_status($2, 400, "wallet/tx_history?index|limit") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; {"/wallet/tx_history" == $1} ;; !{-1 < get_param($0.query_params, "index", -1)}
each require(get_session($0.session.vsid), ctor(permission_e, permission_e::CONST_REQUEST)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; {"/wallet/offers" == $1}
each get_offers(@wallet, u32(from_string_value(at($0.query_params, "index"))), ({from_string_value(at($0.query_params, "state"))} && {has($0.query_params, "state")}), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; {"/wallet/offers" == $1} ;; {has($0.query_params, "index")}
each insert(%unordered_set<addr_t>, elem($cb0).bid_currency) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; {"/wallet/offers" == $1} ;; {has($0.query_params, "index")}
each insert(%unordered_set<addr_t>, elem($cb0).ask_currency) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; {"/wallet/offers" == $1} ;; {has($0.query_params, "index")}
each get_context(%unordered_set<addr_t>, $2, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; {"/wallet/offers" == $1} ;; {has($0.query_params, "index")}
each push_back(%vector<Variant>, render_value(elem($cb0), $cb0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; {"/wallet/offers" == $1} ;; {has($0.query_params, "index")}
each respond($2, render_value(%vector<Variant>, 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; {"/wallet/offers" == $1} ;; {has($0.query_params, "index")}
each respond_status($2, 400, "wallet/offers?index") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; {"/wallet/offers" == $1} ;; !{has($0.query_params, "index")}
each require(get_session($0.session.vsid), permission_e::SPENDING) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; {"/wallet/send" == $1}
each get_context(ctor(unordered_set<addr_t>, init(addr_t[1], to(at(%Object, "currency"))), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; {"/wallet/send" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each to(at(%Object, "amount"), 0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; {"/wallet/send" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; {to(at(%Object, "raw_mode"))}
each send_from(@wallet, to(at(%Object, "index")), ite({to(at(%Object, "raw_mode"))}, out(to‥), to_amount(to(at(%Object, "amount")), find_currency($cb0, to(at(%Object, "currency"))).decimals)), to(at(%Object, "dst_addr")), to(at(%Object, "src_addr")), to(at(%Object, "currency")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; {"/wallet/send" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; {has(%Object.field, "src_addr")}
each respond($2, render($cb0, $cb0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; {"/wallet/send" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; {has(%Object.field, "src_addr")}
each send(@wallet, to(at(%Object, "index")), ite({to(at(%Object, "raw_mode"))}, out(to‥), to_amount(to(at(%Object, "amount")), find_currency($cb0, to(at(%Object, "currency"))).decimals)), to(at(%Object, "dst_addr")), to(at(%Object, "currency")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; {"/wallet/send" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; !{has(%Object.field, "src_addr")}
each respond($2, render($cb0, $cb0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; {"/wallet/send" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; !{has(%Object.field, "src_addr")}
each respond_ex($2, caught(exception)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; {"/wallet/send" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond_status($2, 400, "POST wallet/send {index, amount, currency, dst_addr, [src_addr], [raw_mode]}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; {"/wallet/send" == $1} ;; {find($0.content_type, "application/json", 0)} ;; {find($0.content_type, "text/plain", 0)}
each require(get_session($0.session.vsid), permission_e::SPENDING) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; {"/wallet/send_many" == $1}
each get_context(ctor(unordered_set<addr_t>, init(addr_t[1], to(at(%Object, "currency"))), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; {"/wallet/send_many" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each to(at(%Object, "amounts"), %vector<pair<addr_t,uint128>>) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; {"/wallet/send_many" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; {to(at(%Object, "raw_mode"))}
each push_back(%vector<pair<addr_t,uint128>>, elem(to(at(%Object, "amounts"))).first, to_amount(elem(to(at(%Object, "amounts"))).second, find_currency($cb0, to(at(%Object, "currency"))).decimals)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; {"/wallet/send_many" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; !{to(at(%Object, "raw_mode"))} ;; {find_currency($cb0, to(at(%Object, "currency")))}
each send_many(@wallet, to(at(%Object, "index")), %vector<pair<addr_t,uint128>>, to(at(%Object, "currency")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; {"/wallet/send_many" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond($2, render($cb0, $cb0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; {"/wallet/send_many" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond_ex($2, caught(exception)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; {"/wallet/send_many" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond_status($2, 400, "POST wallet/send_many {index, amounts, currency, options, [raw_mode]}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; {"/wallet/send_many" == $1} ;; {find($0.content_type, "application/json", 0)} ;; {find($0.content_type, "text/plain", 0)}
each require(get_session($0.session.vsid), permission_e::SPENDING) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; {"/wallet/send_off" == $1}
each send_off(@wallet, to(at(%Object, "index")), parse_tx(to_object(at(%Object, "tx"))), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; {"/wallet/send_off" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond_status($2, 200, "") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; {"/wallet/send_off" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond_status($2, 400, "POST wallet/send_off {index, tx}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; {"/wallet/send_off" == $1} ;; {find($0.content_type, "application/json", 0)} ;; {find($0.content_type, "text/plain", 0)}
each require(get_session($0.session.vsid), permission_e::SPENDING) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; {"/wallet/deploy" == $1}
each deploy(@wallet, to(at(%Object, "index")), to(at(%Object, "payload")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; {"/wallet/deploy" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond($2, ctor(Variant, to_string($cb0.id))) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; {"/wallet/deploy" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond_status($2, 400, "POST wallet/deploy {...}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; {"/wallet/deploy" == $1} ;; {find($0.content_type, "application/json", 0)} ;; {find($0.content_type, "text/plain", 0)}
each require(get_session($0.session.vsid), permission_e::SPENDING) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; {"/wallet/execute" == $1}
each execute(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), to(at(%Object, "method")), to(at(%Object, "args")), to(at(%Object, "user")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; {"/wallet/execute" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond($2, render($cb0, get_context())) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; {"/wallet/execute" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond_status($2, 400, "POST wallet/execute {...}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; {"/wallet/execute" == $1} ;; {find($0.content_type, "application/json", 0)} ;; {find($0.content_type, "text/plain", 0)}
each require(get_session($0.session.vsid), permission_e::SPENDING) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; {"/wallet/make_offer" == $1}
each get_context(ctor(unordered_set<addr_t>, init(addr_t[2], to(at(%Object, "bid_currency")), to(at(%Object, "ask_currency"))), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; {"/wallet/make_offer" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each make_offer(@wallet, to(at(%Object, "index")), 0, to_amount(to(at(%Object, "bid")), get_currency($cb0, to(at(%Object, "bid_currency"))).decimals), to(at(%Object, "bid_currency")), to_amount((to_value(to(at(%Object, "bid"))) / to_value(to(at(%Object, "price")))), get_currency($cb0, to(at(%Object, "ask_currency"))).decimals), to(at(%Object, "ask_currency")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; {"/wallet/make_offer" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond($2, render($cb0, $cb0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; {"/wallet/make_offer" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond_ex($2, caught(exception)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; {"/wallet/make_offer" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond_status($2, 400, "POST wallet/make_offer {...}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; {"/wallet/make_offer" == $1} ;; {find($0.content_type, "application/json", 0)} ;; {find($0.content_type, "text/plain", 0)}
each require(get_session($0.session.vsid), permission_e::SPENDING) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; {"/wallet/cancel_offer" == $1}
each cancel_offer(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; {"/wallet/cancel_offer" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond($2, render($cb0, get_context())) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; {"/wallet/cancel_offer" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond_status($2, 400, "POST wallet/cancel_offer {...}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; {"/wallet/cancel_offer" == $1} ;; {find($0.content_type, "application/json", 0)} ;; {find($0.content_type, "text/plain", 0)}
each require(get_session($0.session.vsid), permission_e::SPENDING) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; {"/wallet/offer_withdraw" == $1}
each offer_withdraw(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; {"/wallet/offer_withdraw" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond($2, render($cb0, get_context())) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; {"/wallet/offer_withdraw" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond_status($2, 400, "POST wallet/offer_withdraw {...}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; {"/wallet/offer_withdraw" == $1} ;; {find($0.content_type, "application/json", 0)} ;; {find($0.content_type, "text/plain", 0)}
each require(get_session($0.session.vsid), permission_e::SPENDING) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; {"/wallet/offer_trade" == $1}
each get_offer(@node, to(at(%Object, "address")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; {"/wallet/offer_trade" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each get_context(ctor(unordered_set<addr_t>, init(addr_t[1], $cb0.ask_currency), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; {"/wallet/offer_trade" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each offer_trade(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), to_amount(to(at(%Object, "amount")), find_currency($cb0, $cb0.ask_currency).decimals), 0, to(at(%Object, "price")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; {"/wallet/offer_trade" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; {find_currency($cb0, $cb0.ask_currency)}
each respond($2, render($cb0, $cb0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; {"/wallet/offer_trade" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; {find_currency($cb0, $cb0.ask_currency)}
each respond_status($2, 400, "POST wallet/offer_trade {...}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; {"/wallet/offer_trade" == $1} ;; {find($0.content_type, "application/json", 0)} ;; {find($0.content_type, "text/plain", 0)}
each require(get_session($0.session.vsid), permission_e::SPENDING) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; {"/wallet/accept_offer" == $1}
each get_offer(@node, to(at(%Object, "address")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; {"/wallet/accept_offer" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each accept_offer(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), 0, to(at(%Object, "price")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; {"/wallet/accept_offer" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond($2, render($cb0, get_context())) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; {"/wallet/accept_offer" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond_status($2, 400, "POST wallet/accept_offer {...}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; {"/wallet/accept_offer" == $1} ;; {find($0.content_type, "application/json", 0)} ;; {find($0.content_type, "text/plain", 0)}
each require(get_session($0.session.vsid), ctor(permission_e, permission_e::CONST_REQUEST)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; {"/wallet/swap/liquid" == $1}
each get_swap_liquidity(@wallet, get_param($0.query_params, "index", -1), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; {"/wallet/swap/liquid" == $1} ;; {-1 < get_param($0.query_params, "index", -1)}
each insert(%unordered_set<addr_t>, elem(elem($cb0).second).first) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; {"/wallet/swap/liquid" == $1} ;; {-1 < get_param($0.query_params, "index", -1)}
each get_context(%unordered_set<addr_t>, $2, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; {"/wallet/swap/liquid" == $1} ;; {-1 < get_param($0.query_params, "index", -1)}
each at(%Object, "address") = to_string(elem($cb0).first) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; {"/wallet/swap/liquid" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; {elem(elem($cb0).second).second}
each at(%Object, "currency") = to_string(elem(elem($cb0).second).first) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; {"/wallet/swap/liquid" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; {elem(elem($cb0).second).second}
each at(%Object, "balance") = to_amount_object(elem(elem($cb0).second).second, find_currency($cb0, elem(elem($cb0).second).first).decimals) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; {"/wallet/swap/liquid" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; {elem(elem($cb0).second).second} ;; {find_currency($cb0, elem(elem($cb0).second).first)}
each at(%Object, "symbol") = find_currency($cb0, elem(elem($cb0).second).first).symbol ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; {"/wallet/swap/liquid" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; {elem(elem($cb0).second).second} ;; {find_currency($cb0, elem(elem($cb0).second).first)}
each at(%Object, "index") = fold(0, (~ + 1), elem($cb0).second) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; {"/wallet/swap/liquid" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; {elem(elem($cb0).second).second}
each push_back(%vector<Object>, %Object) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; {"/wallet/swap/liquid" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; {elem(elem($cb0).second).second}
each respond($2, render_value(%vector<Object>, 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; {"/wallet/swap/liquid" == $1} ;; {-1 < get_param($0.query_params, "index", -1)}
each respond_status($2, 400, "wallet/swap/liquid?index") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; {"/wallet/swap/liquid" == $1} ;; !{-1 < get_param($0.query_params, "index", -1)}
each require(get_session($0.session.vsid), permission_e::SPENDING) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; {"/wallet/swap/trade" == $1}
each get_swap_info(@node, to(at(%Object, "address")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; {"/wallet/swap/trade" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each get_context(ctor(unordered_set<addr_t>, init(addr_t[2], at($cb0.tokens, 0), at($cb0.tokens, 1)), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; {"/wallet/swap/trade" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each swap_trade(@wallet, to(at(%Object, "wallet")), to(at(%Object, "address")), to_amount(to(at(%Object, "amount")), find_currency($cb0, at($cb0.tokens, (to(at(%Object, "index")) % 2))).decimals), at($cb0.tokens, (to(at(%Object, "index")) % 2)), ite({to(at(%Object, "min_trade"))}, to_amount(to(at(%Object, "min_trade")), find_currency($cb0, at($cb0.tokens, ((to(at(%Object, "index")) + 1) % 2))).decimals), 0), ite({0 < to(at(%Object, "num_iter"))}, to(at(%Object, "num_iter")), 20), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; {"/wallet/swap/trade" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; {find_currency($cb0, at($cb0.tokens, (to(at(%Object, "index")) % 2)))} ;; {find_currency($cb0, at($cb0.tokens, ((to(at(%Object, "index")) + 1) % 2)))}
each respond($2, render($cb0, $cb0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; {"/wallet/swap/trade" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; {find_currency($cb0, at($cb0.tokens, (to(at(%Object, "index")) % 2)))} ;; {find_currency($cb0, at($cb0.tokens, ((to(at(%Object, "index")) + 1) % 2)))}
each respond_status($2, 400, "POST wallet/swap/trade {...}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; {"/wallet/swap/trade" == $1} ;; {find($0.content_type, "application/json", 0)} ;; {find($0.content_type, "text/plain", 0)}
each require(get_session($0.session.vsid), permission_e::SPENDING) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; {"/wallet/swap/add_liquid" == $1} | {"/wallet/swap/rem_liquid" == $1}
each get_swap_info(@node, to(at(%Object, "address")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; {"/wallet/swap/add_liquid" == $1} | {"/wallet/swap/rem_liquid" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each get_context(ctor(unordered_set<addr_t>, init(addr_t[2], at($cb0.tokens, 0), at($cb0.tokens, 1)), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; {"/wallet/swap/add_liquid" == $1} | {"/wallet/swap/rem_liquid" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each at(%array<uint128,2>, idx(2)) = to_amount(at(to(at(%Object, "amount")), idx(2)), find_currency($cb0, at($cb0.tokens, idx(2))).decimals) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; {"/wallet/swap/add_liquid" == $1} | {"/wallet/swap/rem_liquid" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; {find_currency($cb0, at($cb0.tokens, idx(2)))}
each swap_add_liquid(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), %array<uint128,2>, to(at(%Object, "pool_idx")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; {"/wallet/swap/add_liquid" == $1} | {"/wallet/swap/rem_liquid" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; {"/wallet/swap/add_liquid" == $1}
each respond($2, render($cb0, $cb0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; {"/wallet/swap/add_liquid" == $1} | {"/wallet/swap/rem_liquid" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; {"/wallet/swap/add_liquid" == $1}
each swap_rem_liquid(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), %array<uint128,2>, to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; {"/wallet/swap/add_liquid" == $1} | {"/wallet/swap/rem_liquid" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; !{"/wallet/swap/add_liquid" == $1}
each respond($2, render($cb0, $cb0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; {"/wallet/swap/add_liquid" == $1} | {"/wallet/swap/rem_liquid" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; !{"/wallet/swap/add_liquid" == $1}
each respond_status($2, 400, "POST wallet/swap/[add/rem]_liquid {...}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; {"/wallet/swap/add_liquid" == $1} | {"/wallet/swap/rem_liquid" == $1} ;; {find($0.content_type, "application/json", 0)} ;; {find($0.content_type, "text/plain", 0)}
each require(get_session($0.session.vsid), permission_e::SPENDING) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; {"/wallet/swap/payout" == $1}
each execute(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), "payout", ctor(vector<Variant>), 0, to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; {"/wallet/swap/payout" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond($2, render($cb0, get_context())) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; {"/wallet/swap/payout" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond_status($2, 400, "POST wallet/swap/payout {...}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; {"/wallet/swap/payout" == $1} ;; {find($0.content_type, "application/json", 0)} ;; {find($0.content_type, "text/plain", 0)}
each require(get_session($0.session.vsid), permission_e::SPENDING) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; {"/wallet/swap/switch_pool" == $1}
each execute(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), "switch_pool", ctor(vector<Variant>, init(Variant[1], ctor(Variant, to(at(%Object, "pool_idx"))))), 0, to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; {"/wallet/swap/switch_pool" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond($2, render($cb0, get_context())) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; {"/wallet/swap/switch_pool" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond_status($2, 400, "POST wallet/swap/switch_pool {...}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; {"/wallet/swap/switch_pool" == $1} ;; {find($0.content_type, "application/json", 0)} ;; {find($0.content_type, "text/plain", 0)}
each require(get_session($0.session.vsid), permission_e::SPENDING) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; {"/wallet/swap/rem_all_liquid" == $1}
each execute(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), "rem_all_liquid", ctor(vector<Variant>, init(Variant[1], ctor(Variant, false))), 0, to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; {"/wallet/swap/rem_all_liquid" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond($2, render($cb0, get_context())) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; {"/wallet/swap/rem_all_liquid" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond_status($2, 400, "POST wallet/swap/rem_all_liquid {...}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; {"/wallet/swap/rem_all_liquid" == $1} ;; {find($0.content_type, "application/json", 0)} ;; {find($0.content_type, "text/plain", 0)}
each require(get_session($0.session.vsid), ctor(permission_e, permission_e::CONST_REQUEST)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; {"/farm/info" == $1}
each get_farm_info(@farmer, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; {"/farm/info" == $1}
each %Object = render($cb0, 0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; {"/farm/info" == $1} ;; {$cb0}
each respond($2, %Object) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; {"/farm/info" == $1}
each require(get_session($0.session.vsid), ctor(permission_e, permission_e::CONST_REQUEST)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; {"/farm/blocks" == $1}
each get_farmer_keys(@farmer, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; {"/farm/blocks" == $1}
each get_farmed_blocks(@node, $cb0, false, u32(ite({has($0.query_params, "since")}, from_string(at($0.query_params, "since")), 0)), i32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), -1)), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; {"/farm/blocks" == $1}
each respond($2, render_value($cb0, get_context())) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; {"/farm/blocks" == $1}
each require(get_session($0.session.vsid), ctor(permission_e, permission_e::CONST_REQUEST)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; {"/farm/blocks/summary" == $1}
each get_farmer_keys(@farmer, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; {"/farm/blocks/summary" == $1}
each get_farmed_block_summary(@node, $cb0, u32(ite({has($0.query_params, "since")}, from_string(at($0.query_params, "since")), 0)), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; {"/farm/blocks/summary" == $1}
each at(%Object, "num_blocks") = $cb0.num_blocks ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; {"/farm/blocks/summary" == $1}
each at(%Object, "last_height") = $cb0.last_height ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; {"/farm/blocks/summary" == $1}
each at(%Object, "total_rewards") = $cb0.total_rewards ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; {"/farm/blocks/summary" == $1}
each at(%Object, "total_rewards_value") = to_value($cb0.total_rewards, @params.decimals) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; {"/farm/blocks/summary" == $1}
each at(%Object, "address") = to_string(elem($cb0.reward_map).first) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; {"/farm/blocks/summary" == $1}
each at(%Object, "amount") = elem($cb0.reward_map).second ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; {"/farm/blocks/summary" == $1}
each at(%Object, "value") = to_value(elem($cb0.reward_map).second, @params.decimals) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; {"/farm/blocks/summary" == $1}
each push_back(%vector<Object>, %Object) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; {"/farm/blocks/summary" == $1}
each at(%Object, "rewards") = %vector<Object> ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; {"/farm/blocks/summary" == $1}
each respond($2, %Object) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; {"/farm/blocks/summary" == $1}
each require(get_session($0.session.vsid), ctor(permission_e, permission_e::CONST_REQUEST)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; {"/farm/proofs" == $1}
each at(render(fold(rbegin(@proof_history), (~ + 1)).first, 0), "proof") = render(fold(rbegin(@proof_history), (~ + 1)).first.proof, 0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; {"/farm/proofs" == $1} ;; !{fold(rbegin(@proof_history), (~ + 1)) == rend(@proof_history)} ;; !{-2 < size(%vector<Object>)} | {has($0.query_params, "limit")} ;; !{has($0.query_params, "limit")} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))} ;; !{-2 < size(%vector<Object>)} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))} ;; {fold(rbegin(@proof_history), (~ + 1)).first.proof}
each at(render(fold(rbegin(@proof_history), (~ + 1)).first, 0), "id") = fold(rbegin(@proof_history), (~ + 1)).second ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; {"/farm/proofs" == $1} ;; !{fold(rbegin(@proof_history), (~ + 1)) == rend(@proof_history)} ;; !{-2 < size(%vector<Object>)} | {has($0.query_params, "limit")} ;; !{has($0.query_params, "limit")} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))} ;; !{-2 < size(%vector<Object>)} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))}
each at(render(fold(rbegin(@proof_history), (~ + 1)).first, 0), "harvester") = fold(rbegin(@proof_history), (~ + 1)).first.harvester ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; {"/farm/proofs" == $1} ;; !{fold(rbegin(@proof_history), (~ + 1)) == rend(@proof_history)} ;; !{-2 < size(%vector<Object>)} | {has($0.query_params, "limit")} ;; !{has($0.query_params, "limit")} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))} ;; !{-2 < size(%vector<Object>)} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))}
each at(render(fold(rbegin(@proof_history), (~ + 1)).first, 0), "lookup_time_ms") = fold(rbegin(@proof_history), (~ + 1)).first.lookup_time_ms ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; {"/farm/proofs" == $1} ;; !{fold(rbegin(@proof_history), (~ + 1)) == rend(@proof_history)} ;; !{-2 < size(%vector<Object>)} | {has($0.query_params, "limit")} ;; !{has($0.query_params, "limit")} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))} ;; !{-2 < size(%vector<Object>)} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))}
each push_back(%vector<Object>, render(fold(rbegin(@proof_history), (~ + 1)).first, 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; {"/farm/proofs" == $1} ;; !{fold(rbegin(@proof_history), (~ + 1)) == rend(@proof_history)} ;; !{-2 < size(%vector<Object>)} | {has($0.query_params, "limit")} ;; !{has($0.query_params, "limit")} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))} ;; !{-2 < size(%vector<Object>)} | {size(%vector<Object>) < from_string(at($0.query_params, "limit"))}
each respond($2, render_value(%vector<Object>, 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; {"/farm/proofs" == $1}
each get_recent_offers_for(@node, ite({has($0.query_params, "bid")}, from_string_value(at($0.query_params, "bid")), 0), ite({has($0.query_params, "ask")}, from_string_value(at($0.query_params, "ask")), 0), ite({has($0.query_params, "min_bid")}, from_string(at($0.query_params, "min_bid")), 0), u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100)), (!{has($0.query_params, "state")} || {from_string(at($0.query_params, "state"))}), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; {"/offers" == $1} ;; !{1000 < u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each push_back(%vector<pair<offer_data_t,double>>, elem($cb0), elem($cb0).price) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; {"/offers" == $1} ;; !{1000 < u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each insert(%unordered_set<addr_t>, elem($cb0).bid_currency) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; {"/offers" == $1} ;; !{1000 < u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each insert(%unordered_set<addr_t>, elem($cb0).ask_currency) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; {"/offers" == $1} ;; !{1000 < u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each sort(begin(%vector<pair<offer_data_t,double>>), end(%vector<pair<offer_data_t,double>>), by({$cb0.second < $cb1.second})) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; {"/offers" == $1} ;; !{1000 < u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {has($0.query_params, "bid")} ;; {from_string_value(at($0.query_params, "bid"))} ;; {has($0.query_params, "ask")} ;; {from_string_value(at($0.query_params, "ask"))}
each get_context(%unordered_set<addr_t>, $2, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; {"/offers" == $1} ;; !{1000 < u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each push_back(%vector<Variant>, render_value(elem(%vector<pair<offer_data_t,double>>).first, $cb0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; {"/offers" == $1} ;; !{1000 < u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each respond($2, render_value(%vector<Variant>, 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; {"/offers" == $1} ;; !{1000 < u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each get_offer(@node, from_string_value(at($0.query_params, "id")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; {"/offer" == $1} ;; {has($0.query_params, "id")}
each get_context(ctor(unordered_set<addr_t>, init(addr_t[2], $cb0.bid_currency, $cb0.ask_currency), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; {"/offer" == $1} ;; {has($0.query_params, "id")}
each respond($2, render_value($cb0, $cb0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; {"/offer" == $1} ;; {has($0.query_params, "id")}
each respond_status($2, 400, "offer?id") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; {"/offer" == $1} ;; !{has($0.query_params, "id")}
each get_trade_history_for(@node, ite({has($0.query_params, "bid")}, from_string_value(at($0.query_params, "bid")), 0), ite({has($0.query_params, "ask")}, from_string_value(at($0.query_params, "ask")), 0), u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100)), u32(ite({has($0.query_params, "since")}, from_string(at($0.query_params, "since")), 0)), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; {"/trade_history" == $1} ;; !{1000 < u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each insert(%unordered_set<addr_t>, elem($cb0).bid_currency) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; {"/trade_history" == $1} ;; !{1000 < u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each insert(%unordered_set<addr_t>, elem($cb0).ask_currency) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; {"/trade_history" == $1} ;; !{1000 < u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each get_context(%unordered_set<addr_t>, $2, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; {"/trade_history" == $1} ;; !{1000 < u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each push_back(%vector<Variant>, render_value(elem($cb0), $cb0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; {"/trade_history" == $1} ;; !{1000 < u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each respond($2, render_value(%vector<Variant>, 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; {"/trade_history" == $1} ;; !{1000 < u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
each read_storage(@node, from_string_value(at($0.query_params, "id")), 4294967295, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; {"/contract/storage" == $1} ;; {has($0.query_params, "id")}
each resolve_vm_varptr(from_string_value(at($0.query_params, "id")), elem($cb0).second, $2, 0, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; {"/contract/storage" == $1} ;; {has($0.query_params, "id")}
each at(%shared_ptr<job_t>.out, elem($cb0).first) = $cb0 ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; {"/contract/storage" == $1} ;; {has($0.query_params, "id")}
each %shared_ptr<job_t>.k = (%shared_ptr<job_t>.k + 1) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; {"/contract/storage" == $1} ;; {has($0.query_params, "id")}
each respond($2, %shared_ptr<job_t>.out) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; {"/contract/storage" == $1} ;; {has($0.query_params, "id")} ;; {(%shared_ptr<job_t>.k + 1) == size($cb0)}
each respond($2, %shared_ptr<job_t>.out) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; {"/contract/storage" == $1} ;; {has($0.query_params, "id")} ;; {empty($cb0)}
each respond_status($2, 400, "contract/storage?id") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; {"/contract/storage" == $1} ;; !{has($0.query_params, "id")}
each read_storage_field(@node, from_string_value(at($0.query_params, "id")), from_string_value(at($0.query_params, "name")), 4294967295, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; {"/contract/storage/field" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")}
each resolve_vm_varptr(from_string_value(at($0.query_params, "id")), $cb0.first, $2, 0, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; {"/contract/storage/field" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")}
each at(%Object, "address") = $cb0.second ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; {"/contract/storage/field" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")}
each at(%Object, "value") = $cb0 ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; {"/contract/storage/field" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")}
each respond($2, %Object) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; {"/contract/storage/field" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")}
each respond_status($2, 400, "contract/storage/field?id|name") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; {"/contract/storage/field" == $1} ;; !{has($0.query_params, "id")} | !{has($0.query_params, "name")}
each read_storage_entry_addr(@node, from_string_value(at($0.query_params, "id")), from_string_value(at($0.query_params, "name")), ctor(addr_t, from_string_value(at($0.query_params, "addr"))), 4294967295, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; {"/contract/storage/entry" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")} ;; {has($0.query_params, "addr")} | {has($0.query_params, "key")} ;; {has($0.query_params, "addr")}
each resolve_vm_varptr(from_string_value(at($0.query_params, "id")), get0($cb0), $2, 0, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; {"/contract/storage/entry" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")} ;; {has($0.query_params, "addr")} | {has($0.query_params, "key")} ;; {has($0.query_params, "addr")}
each at(%Object, "address") = get1($cb0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; {"/contract/storage/entry" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")} ;; {has($0.query_params, "addr")} | {has($0.query_params, "key")} ;; {has($0.query_params, "addr")}
each at(%Object, "key") = get2($cb0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; {"/contract/storage/entry" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")} ;; {has($0.query_params, "addr")} | {has($0.query_params, "key")} ;; {has($0.query_params, "addr")}
each at(%Object, "value") = $cb0 ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; {"/contract/storage/entry" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")} ;; {has($0.query_params, "addr")} | {has($0.query_params, "key")} ;; {has($0.query_params, "addr")}
each respond($2, %Object) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; {"/contract/storage/entry" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")} ;; {has($0.query_params, "addr")} | {has($0.query_params, "key")} ;; {has($0.query_params, "addr")}
each read_storage_entry_string(@node, from_string_value(at($0.query_params, "id")), from_string_value(at($0.query_params, "name")), from_string_value(at($0.query_params, "key")), 4294967295, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; {"/contract/storage/entry" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")} ;; {has($0.query_params, "addr")} | {has($0.query_params, "key")} ;; !{has($0.query_params, "addr")} ;; {has($0.query_params, "key")}
each resolve_vm_varptr(from_string_value(at($0.query_params, "id")), get0($cb0), $2, 0, lambda) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; {"/contract/storage/entry" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")} ;; {has($0.query_params, "addr")} | {has($0.query_params, "key")} ;; !{has($0.query_params, "addr")} ;; {has($0.query_params, "key")}
each at(%Object, "address") = get1($cb0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; {"/contract/storage/entry" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")} ;; {has($0.query_params, "addr")} | {has($0.query_params, "key")} ;; !{has($0.query_params, "addr")} ;; {has($0.query_params, "key")}
each at(%Object, "key") = get2($cb0) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; {"/contract/storage/entry" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")} ;; {has($0.query_params, "addr")} | {has($0.query_params, "key")} ;; !{has($0.query_params, "addr")} ;; {has($0.query_params, "key")}
each at(%Object, "value") = $cb0 ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; {"/contract/storage/entry" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")} ;; {has($0.query_params, "addr")} | {has($0.query_params, "key")} ;; !{has($0.query_params, "addr")} ;; {has($0.query_params, "key")}
each respond($2, %Object) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; {"/contract/storage/entry" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")} ;; {has($0.query_params, "addr")} | {has($0.query_params, "key")} ;; !{has($0.query_params, "addr")} ;; {has($0.query_params, "key")}
each respond_status($2, 400, "contract/storage/entry?id|name|addr|key") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; {"/contract/storage/entry" == $1} ;; !{has($0.query_params, "addr")} | !{has($0.query_params, "id")} | !{has($0.query_params, "name")} ;; !{has($0.query_params, "id")} | !{has($0.query_params, "key")} | !{has($0.query_params, "name")}
each call_contract(@node, get_param($0.query_params, "id", ctor(addr_t)), get_param($0.query_params, "method", ctor(string)), to(at(%Object, "args")), get_param($0.query_params, "user", 0), to(at(%Object, "deposit")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; !{"/contract/storage/entry" == $1} ;; {"/contract/call" == $1} ;; !{ctor(addr_t) == get_param($0.query_params, "id", ctor(addr_t))} ;; !{empty(get_param($0.query_params, "method", ctor(string)))}
each respond($2, render_value($cb0, 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; !{"/contract/storage/entry" == $1} ;; {"/contract/call" == $1} ;; !{ctor(addr_t) == get_param($0.query_params, "id", ctor(addr_t))} ;; !{empty(get_param($0.query_params, "method", ctor(string)))}
each respond_status($2, 400, "GET/POST contract/call?id|method {args: [...]}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; !{"/contract/storage/entry" == $1} ;; {"/contract/call" == $1} ;; {ctor(addr_t) == get_param($0.query_params, "id", ctor(addr_t))} | {empty(get_param($0.query_params, "method", ctor(string)))}
each validate(@node, parse_tx(%Object), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; !{"/contract/storage/entry" == $1} ;; !{"/contract/call" == $1} ;; {"/transaction/validate" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond($2, render($cb0, 0)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; !{"/contract/storage/entry" == $1} ;; !{"/contract/call" == $1} ;; {"/transaction/validate" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond_status($2, 400, "POST transaction/validate {...}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; !{"/contract/storage/entry" == $1} ;; !{"/contract/call" == $1} ;; {"/transaction/validate" == $1} ;; {find($0.content_type, "application/json", 0)} ;; {find($0.content_type, "text/plain", 0)}
each validate(@node, parse_tx(%Object), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; !{"/contract/storage/entry" == $1} ;; !{"/contract/call" == $1} ;; !{"/transaction/validate" == $1} ;; {"/transaction/broadcast" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each add_transaction(@node, parse_tx(%Object), false, bind(&respond_status, this, $2, 200, ""), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; !{"/contract/storage/entry" == $1} ;; !{"/contract/call" == $1} ;; !{"/transaction/validate" == $1} ;; {"/transaction/broadcast" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
each respond_status($2, 400, "POST transaction/broadcast {...}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; !{"/contract/storage/entry" == $1} ;; !{"/contract/call" == $1} ;; !{"/transaction/validate" == $1} ;; {"/transaction/broadcast" == $1} ;; {find($0.content_type, "application/json", 0)} ;; {find($0.content_type, "text/plain", 0)}
each respond_status($2, 200, "true") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; !{"/contract/storage/entry" == $1} ;; !{"/contract/call" == $1} ;; !{"/transaction/validate" == $1} ;; !{"/transaction/broadcast" == $1} ;; {"/passphrase/validate" == $1} ;; {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; {get_finger_print(ite({has(%Object.field, "words")}, words_to_seed(string_to_words(to_string_value(at(%Object, "words"))), wordlist_en), to(at(%Object, "seed"))), to_string_value(at(%Object, "passphrase"))) == to_string_value(at(%Object, "finger_print"))}
each respond_status($2, 400, "false") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; !{"/contract/storage/entry" == $1} ;; !{"/contract/call" == $1} ;; !{"/transaction/validate" == $1} ;; !{"/transaction/broadcast" == $1} ;; {"/passphrase/validate" == $1} ;; {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; !{get_finger_print(ite({has(%Object.field, "words")}, words_to_seed(string_to_words(to_string_value(at(%Object, "words"))), wordlist_en), to(at(%Object, "seed"))), to_string_value(at(%Object, "passphrase"))) == to_string_value(at(%Object, "finger_print"))}
each respond_status($2, 400, "POST passphrase/validate {...}") ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; !{"/contract/storage/entry" == $1} ;; !{"/contract/call" == $1} ;; !{"/transaction/validate" == $1} ;; !{"/transaction/broadcast" == $1} ;; {"/passphrase/validate" == $1} ;; {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {find($0.content_type, "application/json", 0)} ;; {find($0.content_type, "text/plain", 0)}
each respond_status($2, 404, to_string(%vector<string,allocator<string>>)) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; !{"/contract/storage/entry" == $1} ;; !{"/contract/call" == $1} ;; !{"/transaction/validate" == $1} ;; !{"/transaction/broadcast" == $1} ;; !{"/passphrase/validate" == $1}
never break($cb0)
never break($cb0.reward_map)
never break(to(at(%Object, "amounts")))
never break(elem($cb0).second)
never break(%vector<pair<offer_data_t,double>>)
raise !{$0.session}
raise {$0.session} ;; !{get_session($0.session.vsid)}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; !{"HEAD" == $0.method} ;; !{"GET" == $0.method} ;; !{"POST" == $0.method}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {@is_synced} ;; !{(-@synced_since + @curr_height) < @sync_delay} ;; !{rfind($1, "/farm/", 0)} | !{rfind($1, "/wallet/", 0)}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; {"/config/set" == $1} ;; {has(%Object.field, "key")} ;; {has(%Object.field, "value")} ;; {is_config_protected(to_string_value(at(%Object.field, "key")))}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; {"/node/graph/blocks" == $1} ;; !{has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {1000 < u32(ite({has($0.query_params, "limit")}, max(0, from_string(at($0.query_params, "limit"))), 1000))}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; {"/headers" == $1} ;; {1000 < get_param($0.query_params, "limit", 0)}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; {"/headers" == $1} ;; !{1000 < get_param($0.query_params, "limit", 0)} ;; !{has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {100 < get_param($0.query_params, "limit", 0)}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; {"/blocks" == $1} ;; !{has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; {"/transactions" == $1} ;; {get_param($0.query_params, "height", 0)} ;; !{has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {get_param($0.query_params, "limit", 0)} ;; {1000 < get_param($0.query_params, "limit", 0)}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; {"/transactions" == $1} ;; !{get_param($0.query_params, "height", 0)} ;; !{has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {get_param($0.query_params, "limit", 0)} ;; {1000 < get_param($0.query_params, "limit", 0)}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; {"/address" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {1000 < get_param($0.query_params, "limit", 100)}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; {"/balance" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {1000 < get_param($0.query_params, "limit", 100)}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; {"/swap/list" == $1} ;; !{has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {100 < u32(get_param($0.query_params, "limit", 50))}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; {"/swap/history" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {1000 < get_param($0.query_params, "limit", 100)}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; {"/swap/trade_estimate" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "index")} ;; {has($0.query_params, "amount")} ;; {1 < from_string_value(at($0.query_params, "index"))}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; {"/swap/trade_estimate" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "index")} ;; {has($0.query_params, "amount")} ;; !{1 < from_string_value(at($0.query_params, "index"))} ;; !{find_currency($cb0, at($cb0.tokens, ((from_string_value(at($0.query_params, "index")) + 1) % 2)))} | !{find_currency($cb0, at($cb0.tokens, from_string_value(at($0.query_params, "index"))))}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; {"/farmers" == $1} ;; !{has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {1000 < get_param($0.query_params, "limit", 100)}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; {"/farmer/blocks" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(pubkey_t)))} ;; !{has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {100 < get_param($0.query_params, "limit", 50)}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; {"/address/history" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; !{-1 < get_param($0.query_params, "limit", 100)} | {1000 < get_param($0.query_params, "limit", 100)}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; {"/contract/exec_history" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {1000 < get_param($0.query_params, "limit", 100)}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; {"/wallet/send" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; !{to(at(%Object, "raw_mode"))} ;; !{find_currency($cb0, to(at(%Object, "currency")))}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; {"/wallet/send_many" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; !{to(at(%Object, "raw_mode"))} ;; !{find_currency($cb0, to(at(%Object, "currency")))}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; {"/wallet/offer_trade" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; !{find_currency($cb0, $cb0.ask_currency)}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; {"/wallet/swap/trade" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; !{find_currency($cb0, at($cb0.tokens, ((to(at(%Object, "index")) + 1) % 2)))} | !{find_currency($cb0, at($cb0.tokens, (to(at(%Object, "index")) % 2)))}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; {"/offers" == $1} ;; !{has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {1000 < u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100))}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; {"/trade_history" == $1} ;; !{has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")} ;; {1000 < u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100))}
raise {$0.session} ;; {get_session($0.session.vsid)} ;; {"GET" == $0.method} | {"HEAD" == $0.method} | {"POST" == $0.method} ;; !{"/config/get" == $1} ;; !{"/config/set" == $1} ;; !{"/exit" == $1} ;; !{"/node/exit" == $1} ;; !{"/chain/info" == $1} ;; !{"/node/info" == $1} ;; !{"/node/log" == $1} ;; !{"/node/graph/blocks" == $1} ;; !{"/header" == $1} ;; !{"/headers" == $1} ;; !{"/block" == $1} ;; !{"/blocks" == $1} ;; !{"/transaction" == $1} ;; !{"/transactions" == $1} ;; !{"/address" == $1} ;; !{"/balance" == $1} ;; !{"/supply" == $1} ;; !{"/contract" == $1} ;; !{"/plotnft" == $1} ;; !{"/swap/list" == $1} ;; !{"/swap/info" == $1} ;; !{"/swap/user_info" == $1} ;; !{"/swap/history" == $1} ;; !{"/swap/trade_estimate" == $1} ;; !{"/offer/trade_estimate" == $1} ;; !{"/farmers" == $1} ;; !{"/farmer" == $1} ;; !{"/farmer/blocks" == $1} ;; !{"/address/history" == $1} ;; !{"/contract/exec_history" == $1} ;; !{"/wallet/keys" == $1} ;; !{"/wallet/seed" == $1} ;; !{"/wallet/accounts" == $1} ;; !{"/wallet/account" == $1} ;; !{"/wallet/balance" == $1} ;; !{"/wallet/contracts" == $1} ;; !{"/wallet/address" == $1} ;; !{"/wallet/tokens" == $1} ;; !{"/wallet/history" == $1} ;; !{"/wallet/tx_history" == $1} ;; !{"/wallet/offers" == $1} ;; !{"/wallet/send" == $1} ;; !{"/wallet/send_many" == $1} ;; !{"/wallet/send_off" == $1} ;; !{"/wallet/deploy" == $1} ;; !{"/wallet/execute" == $1} ;; !{"/wallet/make_offer" == $1} ;; !{"/wallet/cancel_offer" == $1} ;; !{"/wallet/offer_withdraw" == $1} ;; !{"/wallet/offer_trade" == $1} ;; !{"/wallet/accept_offer" == $1} ;; !{"/wallet/swap/liquid" == $1} ;; !{"/wallet/swap/trade" == $1} ;; !{"/wallet/swap/add_liquid" == $1} ;; !{"/wallet/swap/rem_liquid" == $1} ;; !{"/wallet/swap/payout" == $1} ;; !{"/wallet/swap/switch_pool" == $1} ;; !{"/wallet/swap/rem_all_liquid" == $1} ;; !{"/farm/info" == $1} ;; !{"/farm/blocks" == $1} ;; !{"/farm/blocks/summary" == $1} ;; !{"/farm/proofs" == $1} ;; !{"/offers" == $1} ;; !{"/offer" == $1} ;; !{"/trade_history" == $1} ;; !{"/contract/storage" == $1} ;; !{"/contract/storage/field" == $1} ;; !{"/contract/storage/entry" == $1} ;; !{"/contract/call" == $1} ;; !{"/transaction/validate" == $1} ;; !{"/transaction/broadcast" == $1} ;; {"/passphrase/validate" == $1} ;; !{has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
value fold(0, (~ + 1))
value fold(rbegin(@log_history), (~ + 1))
value fold(0, (~ + 1), elem($cb0).second)
value fold(rbegin(@proof_history), (~ + 1))
at ‥(@wallet, …) ;; {did require(get_session($0.session.vsid), permission_e::SPENDING)} | {did require(get_session($0.session.vsid), ctor(permission_e, permission_e::CONST_REQUEST))} ;; {$0.session} ;; {get_session($0.session.vsid)}
at ‥(@farmer, …) ;; {did require(get_session($0.session.vsid), ctor(permission_e, permission_e::CONST_REQUEST))} ;; {$0.session} ;; {get_session($0.session.vsid)}
at ‥(@node, …) ;; {$0.session} ;; {get_session($0.session.vsid)} ;; {@is_synced} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
at send(@wallet, …) ;; {did require(get_session($0.session.vsid), permission_e::SPENDING)}
at send_from(@wallet, …) ;; {did require(get_session($0.session.vsid), permission_e::SPENDING)}
at send_many(@wallet, …) ;; {did require(get_session($0.session.vsid), permission_e::SPENDING)}
at send_off(@wallet, …) ;; {did require(get_session($0.session.vsid), permission_e::SPENDING)}
at deploy(@wallet, …) ;; {did require(get_session($0.session.vsid), permission_e::SPENDING)}
at execute(@wallet, …) ;; {did require(get_session($0.session.vsid), permission_e::SPENDING)}
at make_offer(@wallet, …) ;; {did require(get_session($0.session.vsid), permission_e::SPENDING)}
at cancel_offer(@wallet, …) ;; {did require(get_session($0.session.vsid), permission_e::SPENDING)}
at offer_withdraw(@wallet, …) ;; {did require(get_session($0.session.vsid), permission_e::SPENDING)}
at offer_trade(@wallet, …) ;; {did require(get_session($0.session.vsid), permission_e::SPENDING)}
at accept_offer(@wallet, …) ;; {did require(get_session($0.session.vsid), permission_e::SPENDING)}
at swap_trade(@wallet, …) ;; {did require(get_session($0.session.vsid), permission_e::SPENDING)}
at swap_add_liquid(@wallet, …) ;; {did require(get_session($0.session.vsid), permission_e::SPENDING)}
at swap_rem_liquid(@wallet, …) ;; {did require(get_session($0.session.vsid), permission_e::SPENDING)}
at get_mnemonic_seed(@wallet, …) ;; {did require(get_session($0.session.vsid), permission_e::SPENDING)}
at set_config(…) ;; {did require(get_session($0.session.vsid), ctor(permission_e, permission_e::WRITE_CONFIG))}
at write_config_file(…) ;; {did require(get_session($0.session.vsid), ctor(permission_e, permission_e::WRITE_CONFIG))}
at ctor:basic_ofstream‥(…) ;; {did require(get_session($0.session.vsid), ctor(permission_e, permission_e::WRITE_CONFIG))}
at shutdown(…) ;; {did require(get_session($0.session.vsid), ctor(permission_e, permission_e::SHUTDOWN))}
at get_config(…) ;; {did require(get_session($0.session.vsid), ctor(permission_e, permission_e::READ_CONFIG))}
at get_finger_print(…) ;; {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
at get_all_configs(…) ;; {did require(get_session($0.session.vsid), ctor(permission_e, permission_e::READ_CONFIG))}
at from_string(as_string($0.payload), %Object) ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
at require(get_session($0.session.vsid), ctor(permission_e, permission_e::READ_CONFIG)) ;; {"/config/get" == $1}
at require(get_session($0.session.vsid), ctor(permission_e, permission_e::WRITE_CONFIG)) ;; {"/config/set" == $1}
at set_config(to_string_value(at(%Object.field, "key")), at(%Object.field, "value")) ;; {"/config/set" == $1} ;; {has(%Object.field, "key")} ;; {has(%Object.field, "value")} ;; !{is_config_protected(to_string_value(at(%Object.field, "key")))}
at at(read_config_file(((@config_path ++ substr(to_string_value(at(%Object.field, "key")), 0, find(to_string_value(at(%Object.field, "key")), 46, 0))) ++ ".json")), substr(to_string_value(at(%Object.field, "key")), (find(to_string_value(at(%Object.field, "key")), 46, 0) + 1), npos)) = at(%Object.field, "value") ;; {"/config/set" == $1} ;; {has(%Object.field, "key")} ;; {has(%Object.field, "value")} ;; !{is_config_protected(to_string_value(at(%Object.field, "key")))} ;; !{at(%Object, "tmp_only")} ;; !{find(to_string_value(at(%Object.field, "key")), 46, 0) == npos} ;; {substr(to_string_value(at(%Object.field, "key")), (find(to_string_value(at(%Object.field, "key")), 46, 0) + 1), npos)}
at write_config_file(((@config_path ++ substr(to_string_value(at(%Object.field, "key")), 0, find(to_string_value(at(%Object.field, "key")), 46, 0))) ++ ".json"), read_config_file(((@config_path ++ substr(to_string_value(at(%Object.field, "key")), 0, find(to_string_value(at(%Object.field, "key")), 46, 0))) ++ ".json"))) ;; {"/config/set" == $1} ;; {has(%Object.field, "key")} ;; {has(%Object.field, "value")} ;; !{is_config_protected(to_string_value(at(%Object.field, "key")))} ;; !{at(%Object, "tmp_only")} ;; !{find(to_string_value(at(%Object.field, "key")), 46, 0) == npos} ;; {substr(to_string_value(at(%Object.field, "key")), (find(to_string_value(at(%Object.field, "key")), 46, 0) + 1), npos)}
at require(get_session($0.session.vsid), ctor(permission_e, permission_e::SHUTDOWN)) ;; {"/exit" == $1} | {"/node/exit" == $1}
at shutdown() ;; {"/exit" == $1} | {"/node/exit" == $1}
at get_network_info(@node, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/node/info" == $1}
at require(get_session($0.session.vsid), ctor(permission_e, permission_e::VIEW)) ;; {"/node/log" == $1}
at get_height(@node, lambda, bind(&respond_ex, this, $2, std::placeholders::_1))
at get_header(@node, from_string_value(at($0.query_params, "hash")), bind(&render_header, this, $2, std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/header" == $1} ;; {has($0.query_params, "hash")}
at get_header_at(@node, from_string_value(at($0.query_params, "height")), bind(&render_header, this, $2, std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/header" == $1} ;; !{has($0.query_params, "hash")} ;; {has($0.query_params, "height")}
at get_block(@node, from_string_value(at($0.query_params, "hash")), bind(&render_block, this, $2, std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/block" == $1} ;; {has($0.query_params, "hash")}
at get_block_at(@node, from_string_value(at($0.query_params, "height")), bind(&render_block, this, $2, std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/block" == $1} ;; !{has($0.query_params, "hash")} ;; {has($0.query_params, "height")}
at get_tx_info(@node, from_string_value(at($0.query_params, "id")), bind(&render_transaction, this, $2, std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/transaction" == $1} ;; {has($0.query_params, "id")}
at get_tx_ids_at(@node, get_param($0.query_params, "height", 0), bind(&render_transactions, this, $2, ite({get_param($0.query_params, "limit", 0)}, get_param($0.query_params, "limit", 0), ite({has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}, -1, 100)), get_param($0.query_params, "offset", 0), std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/transactions" == $1} ;; {get_param($0.query_params, "height", 0)} ;; !{1000 < get_param($0.query_params, "limit", 0)} | !{get_param($0.query_params, "limit", 0)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
at get_tx_ids(@node, ite({get_param($0.query_params, "limit", 0)}, get_param($0.query_params, "limit", 0), 100), bind(&render_transactions, this, $2, ite({get_param($0.query_params, "limit", 0)}, get_param($0.query_params, "limit", 0), 100), 0, std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/transactions" == $1} ;; !{get_param($0.query_params, "height", 0)} ;; !{1000 < get_param($0.query_params, "limit", 0)} | !{get_param($0.query_params, "limit", 0)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
at get_total_balances(@node, ctor(vector<addr_t>, init(addr_t[1], get_param($0.query_params, "id", 0))), ctor(set<addr_t>), get_param($0.query_params, "limit", 100), bind(&render_address, this, $2, get_param($0.query_params, "id", 0), std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/address" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
at get_contract_balances(@node, get_param($0.query_params, "id", 0), %set<addr_t>, get_param($0.query_params, "limit", 100), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/balance" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
at get_context(ctor(unordered_set<addr_t>, init(addr_t[1], get_param($0.query_params, "id", ctor(addr_t))), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda) ;; {"/supply" == $1}
at get_total_supply(@node, get_param($0.query_params, "id", ctor(addr_t)), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/supply" == $1}
at get_contract(@node, from_string_value(at($0.query_params, "id")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/contract" == $1} ;; {has($0.query_params, "id")}
at get_plot_nft_info(@node, get_param($0.query_params, "id", ctor(addr_t)), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/plotnft" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(addr_t)))}
at get_swaps(@node, get_param($0.query_params, "since", 0), get_param($0.query_params, "token", 0), get_param($0.query_params, "currency", 0), u32(get_param($0.query_params, "limit", 50)), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/swap/list" == $1} ;; !{100 < u32(get_param($0.query_params, "limit", 50))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
at get_context(%unordered_set<addr_t>, $2, lambda)
at get_swap_info(@node, from_string_value(at($0.query_params, "id")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {has($0.query_params, "id")}
at get_context(ctor(unordered_set<addr_t>, init(addr_t[2], at($cb0.tokens, 0), at($cb0.tokens, 1)), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda)
at get_swap_user_info(@node, from_string_value(at($0.query_params, "id")), from_string_value(at($0.query_params, "user")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/swap/user_info" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "user")}
at get_swap_history(@node, get_param($0.query_params, "id", 0), get_param($0.query_params, "limit", 100), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/swap/history" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
at get_swap_trade_estimate(@node, $cb0.address, from_string_value(at($0.query_params, "index")), to_amount(from_string_value(at($0.query_params, "amount")), find_currency($cb0, at($cb0.tokens, from_string_value(at($0.query_params, "index")))).decimals), ite({has($0.query_params, "iters")}, from_string_value(at($0.query_params, "iters")), 20), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/swap/trade_estimate" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "index")} ;; {has($0.query_params, "amount")} ;; !{1 < from_string_value(at($0.query_params, "index"))} ;; {find_currency($cb0, at($cb0.tokens, from_string_value(at($0.query_params, "index"))))} ;; {find_currency($cb0, at($cb0.tokens, ((from_string_value(at($0.query_params, "index")) + 1) % 2)))}
at get_offer(@node, from_string_value(at($0.query_params, "id")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {has($0.query_params, "id")}
at get_context(ctor(unordered_set<addr_t>, init(addr_t[2], $cb0.bid_currency, $cb0.ask_currency), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda) ;; {has($0.query_params, "id")}
at get_farmer_ranking(@node, get_param($0.query_params, "limit", 100), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/farmers" == $1} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
at get_farmed_block_summary(@node, ctor(vector<pubkey_t>, init(pubkey_t[1], get_param($0.query_params, "id", ctor(pubkey_t)))), get_param($0.query_params, "since", 0), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/farmer" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(pubkey_t)))}
at get_farmed_blocks(@node, ctor(vector<pubkey_t>, init(pubkey_t[1], get_param($0.query_params, "id", ctor(pubkey_t)))), false, get_param($0.query_params, "since", 0), get_param($0.query_params, "limit", 50), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/farmer/blocks" == $1} ;; !{is_zero(get_param($0.query_params, "id", ctor(pubkey_t)))}
at get_history(@node, ctor(vector<addr_t>, init(addr_t[1], get_param($0.query_params, "id", 0))), %query_filter_t, bind(&render_history, this, $2, std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/address/history" == $1} ;; {get_param($0.query_params, "id", 0)}
at get_exec_history(@node, get_param($0.query_params, "id", 0), get_param($0.query_params, "limit", 100), true, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/contract/exec_history" == $1} ;; {get_param($0.query_params, "id", 0)} ;; !{1000 < get_param($0.query_params, "limit", 100)} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
at require(get_session($0.session.vsid), ctor(permission_e, permission_e::CONST_REQUEST))
at get_farmer_keys(@wallet, u32(from_string(at($0.query_params, "index"))), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/keys" == $1} ;; {has($0.query_params, "index")}
at require(get_session($0.session.vsid), permission_e::SPENDING)
at get_mnemonic_seed(@wallet, u32(from_string(at($0.query_params, "index"))), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/seed" == $1} ;; {has($0.query_params, "index")}
at get_all_accounts(@wallet, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/accounts" == $1}
at get_account(@wallet, u32(from_string(at($0.query_params, "index"))), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/account" == $1} ;; {has($0.query_params, "index")}
at get_balances(@wallet, u32(from_string(at($0.query_params, "index"))), ({from_string(at($0.query_params, "with_zero"))} && {has($0.query_params, "with_zero")}), bind(&render_balances, this, $2, ite({has($0.query_params, "currency")}, from_string(at($0.query_params, "currency")), 0), std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/balance" == $1} ;; {has($0.query_params, "index")}
at get_contracts_owned(@wallet, get_param($0.query_params, "index", -1), get_param($0.query_params, "type", 0), ite({get_param($0.query_params, "type_hash", 0)}, get_param($0.query_params, "type_hash", 0), 0), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/contracts" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; {get_param($0.query_params, "owned", 0)}
at get_contracts(@wallet, get_param($0.query_params, "index", -1), get_param($0.query_params, "type", 0), ite({get_param($0.query_params, "type_hash", 0)}, get_param($0.query_params, "type_hash", 0), 0), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/contracts" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; !{get_param($0.query_params, "owned", 0)}
at get_address(@wallet, get_param($0.query_params, "index", -1), get_param($0.query_params, "offset", 0), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/address" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; !{1 < get_param($0.query_params, "limit", 1)}
at get_all_addresses(@wallet, get_param($0.query_params, "index", -1), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/address" == $1} ;; {-1 < get_param($0.query_params, "index", -1)} ;; {1 < get_param($0.query_params, "limit", 1)}
at get_token_list(@wallet, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/tokens" == $1}
at get_context(ctor(unordered_set<addr_t>, begin($cb0), end($cb0), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda) ;; {"/wallet/tokens" == $1}
at get_history(@wallet, get_param($0.query_params, "index", -1), %query_filter_t, bind(&render_history, this, $2, std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/history" == $1} ;; {-1 < get_param($0.query_params, "index", -1)}
at get_tx_log(@wallet, get_param($0.query_params, "index", -1), get_param($0.query_params, "limit", 100), bind(&render_tx_history, this, $2, std::placeholders::_1), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/tx_history" == $1} ;; {-1 < get_param($0.query_params, "index", -1)}
at get_offers(@wallet, u32(from_string_value(at($0.query_params, "index"))), ({from_string_value(at($0.query_params, "state"))} && {has($0.query_params, "state")}), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/offers" == $1} ;; {has($0.query_params, "index")}
at get_context(ctor(unordered_set<addr_t>, init(addr_t[1], to(at(%Object, "currency"))), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda) ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
at send_from(@wallet, to(at(%Object, "index")), ite({to(at(%Object, "raw_mode"))}, out(to‥), to_amount(to(at(%Object, "amount")), find_currency($cb0, to(at(%Object, "currency"))).decimals)), to(at(%Object, "dst_addr")), to(at(%Object, "src_addr")), to(at(%Object, "currency")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/send" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; {has(%Object.field, "src_addr")}
at send(@wallet, to(at(%Object, "index")), ite({to(at(%Object, "raw_mode"))}, out(to‥), to_amount(to(at(%Object, "amount")), find_currency($cb0, to(at(%Object, "currency"))).decimals)), to(at(%Object, "dst_addr")), to(at(%Object, "currency")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/send" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; !{has(%Object.field, "src_addr")}
at send_many(@wallet, to(at(%Object, "index")), %vector<pair<addr_t,uint128>>, to(at(%Object, "currency")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/send_many" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
at send_off(@wallet, to(at(%Object, "index")), parse_tx(to_object(at(%Object, "tx"))), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/send_off" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
at deploy(@wallet, to(at(%Object, "index")), to(at(%Object, "payload")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/deploy" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
at execute(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), to(at(%Object, "method")), to(at(%Object, "args")), to(at(%Object, "user")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/execute" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
at get_context(ctor(unordered_set<addr_t>, init(addr_t[2], to(at(%Object, "bid_currency")), to(at(%Object, "ask_currency"))), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda) ;; {"/wallet/make_offer" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
at make_offer(@wallet, to(at(%Object, "index")), 0, to_amount(to(at(%Object, "bid")), get_currency($cb0, to(at(%Object, "bid_currency"))).decimals), to(at(%Object, "bid_currency")), to_amount((to_value(to(at(%Object, "bid"))) / to_value(to(at(%Object, "price")))), get_currency($cb0, to(at(%Object, "ask_currency"))).decimals), to(at(%Object, "ask_currency")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/make_offer" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
at cancel_offer(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/cancel_offer" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
at offer_withdraw(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/offer_withdraw" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
at get_offer(@node, to(at(%Object, "address")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
at get_context(ctor(unordered_set<addr_t>, init(addr_t[1], $cb0.ask_currency), 0, ctor(hash<addr_t>), ctor(equal_to<addr_t>)), $2, lambda) ;; {"/wallet/offer_trade" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
at offer_trade(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), to_amount(to(at(%Object, "amount")), find_currency($cb0, $cb0.ask_currency).decimals), 0, to(at(%Object, "price")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/offer_trade" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; {find_currency($cb0, $cb0.ask_currency)}
at accept_offer(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), 0, to(at(%Object, "price")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/accept_offer" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
at get_swap_liquidity(@wallet, get_param($0.query_params, "index", -1), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/swap/liquid" == $1} ;; {-1 < get_param($0.query_params, "index", -1)}
at get_swap_info(@node, to(at(%Object, "address")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
at swap_trade(@wallet, to(at(%Object, "wallet")), to(at(%Object, "address")), to_amount(to(at(%Object, "amount")), find_currency($cb0, at($cb0.tokens, (to(at(%Object, "index")) % 2))).decimals), at($cb0.tokens, (to(at(%Object, "index")) % 2)), ite({to(at(%Object, "min_trade"))}, to_amount(to(at(%Object, "min_trade")), find_currency($cb0, at($cb0.tokens, ((to(at(%Object, "index")) + 1) % 2))).decimals), 0), ite({0 < to(at(%Object, "num_iter"))}, to(at(%Object, "num_iter")), 20), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/swap/trade" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; {find_currency($cb0, at($cb0.tokens, (to(at(%Object, "index")) % 2)))} ;; {find_currency($cb0, at($cb0.tokens, ((to(at(%Object, "index")) + 1) % 2)))}
at swap_add_liquid(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), %array<uint128,2>, to(at(%Object, "pool_idx")), to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/swap/add_liquid" == $1} | {"/wallet/swap/rem_liquid" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)} ;; {"/wallet/swap/add_liquid" == $1}
at swap_rem_liquid(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), %array<uint128,2>, to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/swap/add_liquid" == $1} | {"/wallet/swap/rem_liquid" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
at execute(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), "payout", ctor(vector<Variant>), 0, to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/swap/payout" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
at execute(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), "switch_pool", ctor(vector<Variant>, init(Variant[1], ctor(Variant, to(at(%Object, "pool_idx"))))), 0, to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/swap/switch_pool" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
at execute(@wallet, to(at(%Object, "index")), to(at(%Object, "address")), "rem_all_liquid", ctor(vector<Variant>, init(Variant[1], ctor(Variant, false))), 0, to(at(%Object, "options")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/wallet/swap/rem_all_liquid" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
at get_farm_info(@farmer, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/farm/info" == $1}
at get_farmer_keys(@farmer, lambda, bind(&respond_ex, this, $2, std::placeholders::_1))
at get_farmed_blocks(@node, $cb0, false, u32(ite({has($0.query_params, "since")}, from_string(at($0.query_params, "since")), 0)), i32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), -1)), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/farm/blocks" == $1}
at get_farmed_block_summary(@node, $cb0, u32(ite({has($0.query_params, "since")}, from_string(at($0.query_params, "since")), 0)), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/farm/blocks/summary" == $1}
at get_recent_offers_for(@node, ite({has($0.query_params, "bid")}, from_string_value(at($0.query_params, "bid")), 0), ite({has($0.query_params, "ask")}, from_string_value(at($0.query_params, "ask")), 0), ite({has($0.query_params, "min_bid")}, from_string(at($0.query_params, "min_bid")), 0), u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100)), (!{has($0.query_params, "state")} || {from_string(at($0.query_params, "state"))}), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/offers" == $1} ;; !{1000 < u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
at get_trade_history_for(@node, ite({has($0.query_params, "bid")}, from_string_value(at($0.query_params, "bid")), 0), ite({has($0.query_params, "ask")}, from_string_value(at($0.query_params, "ask")), 0), u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100)), u32(ite({has($0.query_params, "since")}, from_string(at($0.query_params, "since")), 0)), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/trade_history" == $1} ;; !{1000 < u32(ite({has($0.query_params, "limit")}, from_string(at($0.query_params, "limit")), 100))} | {has_permission(get_session($0.session.vsid), "vnx.permission_e.CONST_REQUEST")}
at read_storage(@node, from_string_value(at($0.query_params, "id")), 4294967295, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/contract/storage" == $1} ;; {has($0.query_params, "id")}
at read_storage_field(@node, from_string_value(at($0.query_params, "id")), from_string_value(at($0.query_params, "name")), 4294967295, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/contract/storage/field" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")}
at read_storage_entry_addr(@node, from_string_value(at($0.query_params, "id")), from_string_value(at($0.query_params, "name")), ctor(addr_t, from_string_value(at($0.query_params, "addr"))), 4294967295, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/contract/storage/entry" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")} ;; {has($0.query_params, "addr")} | {has($0.query_params, "key")} ;; {has($0.query_params, "addr")}
at read_storage_entry_string(@node, from_string_value(at($0.query_params, "id")), from_string_value(at($0.query_params, "name")), from_string_value(at($0.query_params, "key")), 4294967295, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/contract/storage/entry" == $1} ;; {has($0.query_params, "id")} ;; {has($0.query_params, "name")} ;; {has($0.query_params, "addr")} | {has($0.query_params, "key")} ;; !{has($0.query_params, "addr")} ;; {has($0.query_params, "key")}
at call_contract(@node, get_param($0.query_params, "id", ctor(addr_t)), get_param($0.query_params, "method", ctor(string)), to(at(%Object, "args")), get_param($0.query_params, "user", 0), to(at(%Object, "deposit")), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/contract/call" == $1} ;; !{ctor(addr_t) == get_param($0.query_params, "id", ctor(addr_t))} ;; !{empty(get_param($0.query_params, "method", ctor(string)))}
at validate(@node, parse_tx(%Object), lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
at add_transaction(@node, parse_tx(%Object), false, bind(&respond_status, this, $2, 200, ""), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {"/transaction/broadcast" == $1} ;; !{find($0.content_type, "application/json", 0)} | !{find($0.content_type, "text/plain", 0)}
fn mmx::WebAPI::shutdown sig=()
each set_timeout_millis(1000, lambda)
each trigger_shutdown_async(%ProcessClient)
never throw …
exit {did set_timeout_millis(1000, lambda)}
at set_timeout_millis(1000, lambda)
at trigger_shutdown_async(%ProcessClient)
fn mmx::WebAPI::get_context sig=()~const
each %shared_ptr<RenderContext>.curr_height = @curr_height
never throw …
exit {did %shared_ptr<RenderContext>.curr_height = @curr_height}
exit {ret = %shared_ptr<RenderContext>}
at %shared_ptr<RenderContext>.curr_height = @curr_height
fn mmx::WebAPI::get_context sig=(const~std::unordered_set<mmx::addr_t,~std::hash<mmx::addr_t>,~std::equal_to<mmx::addr_t>,~std::allocator<mmx::addr_t>>~&,~const~vnx::request_id_t~&,~const~std::function<void~(std::shared_ptr<mmx::RenderContext>)>~&)~const
never break(loop)
each get_contracts(@node, %vector<addr_t>, lambda, bind(&respond_ex, this, $1, std::placeholders::_1))
each add_contract(get_context(), at(%vector<addr_t>, fold(0, (~ + 1))), at($cb0, fold(0, (~ + 1)))) ;; {fold(0, (~ + 1)) < size(%vector<addr_t>)} ;; {fold(0, (~ + 1)) < size($cb0)}
each $2(get_context())
each respond_ex($1, caught(exception))
never throw …
value fold(0, (~ + 1))
exit {did get_contracts(@node, %vector<addr_t>, lambda, bind(&respond_ex, this, $1, std::placeholders::_1))}
at get_contracts(@node, %vector<addr_t>, lambda, bind(&respond_ex, this, $1, std::placeholders::_1))
at add_contract(get_context(), at(%vector<addr_t>, fold(0, (~ + 1))), at($cb0, fold(0, (~ + 1)))) ;; {fold(0, (~ + 1)) < size(%vector<addr_t>)} ;; {fold(0, (~ + 1)) < size($cb0)}
at $2(get_context())
at respond_ex($1, caught(exception))
fn mmx::WebAPI::respond_ex sig=(const~vnx::request_id_t~&,~const~std::exception~&)~const
each respond($0, from_text_ex(ctor(string, what($1)), 400))
never throw …
exit {did respond($0, from_text_ex(ctor(string, what($1)), 400))}
at respond($0, from_text_ex(ctor(string, what($1)), 400))
fn mmx::WebAPI::respond_status sig=(const~vnx::request_id_t~&,~const~int~&,~const~std::basic_string<char,~std::char_traits<char>,~std::allocator<char>>~&)~const
each respond($0, from_status($1)) ;; {empty($2)}
each respond($0, from_text_ex($2, $1)) ;; !{empty($2)}
never throw …
exit !{empty($2)} | {did respond($0, from_status($1))}
exit {did respond($0, from_text_ex($2, $1))} | {empty($2)}
at respond($0, from_status($1)) ;; {empty($2)}
at respond($0, from_text_ex($2, $1)) ;; !{empty($2)}
fn mmx::WebAPI::render_headers sig=(const~vnx::request_id_t~&,~unsigned~long,~const~unsigned~long)~const
never break(loop)
each %shared_ptr<job_t>.num_left = min($1, $2)
each %shared_ptr<job_t>.request_id = $0
each resize(%shared_ptr<job_t>.result, min($1, $2))
each respond($0, render_value(%shared_ptr<job_t>.result, 0)) ;; !{min($1, $2)}
each get_context().hide_proof = true ;; {min($1, $2)}
each get_header_at(@node, u32(($2 + -idx(min($1, $2)))), lambda, 0) ;; {min($1, $2)}
each at(%shared_ptr<job_t>.result, idx(min($1, $2))) = render_value($cb0, get_context()) ;; {min($1, $2)}
each %shared_ptr<job_t>.num_left = (%shared_ptr<job_t>.num_left + -1) ;; {min($1, $2)}
each respond($0, render_value(%shared_ptr<job_t>.result, 0)) ;; {min($1, $2)} ;; !{(%shared_ptr<job_t>.num_left + -1)}
never throw …
exit {did %shared_ptr<job_t>.num_left = min($1, $2)}
exit {did %shared_ptr<job_t>.request_id = $0}
exit {did resize(%shared_ptr<job_t>.result, min($1, $2))}
exit !{min($1, $2)} | {did get_context().hide_proof = true}
exit !{min($1, $2)} | {did get_header_at(@node, u32(($2 + -idx(min($1, $2)))), lambda, 0)}
exit {did respond($0, render_value(%shared_ptr<job_t>.result, 0))} | {min($1, $2)}
at %shared_ptr<job_t>.num_left = min($1, $2)
at %shared_ptr<job_t>.request_id = $0
at resize(%shared_ptr<job_t>.result, min($1, $2))
at respond($0, render_value(%shared_ptr<job_t>.result, 0))
at get_context().hide_proof = true ;; {min($1, $2)}
at get_header_at(@node, u32(($2 + -idx(min($1, $2)))), lambda, 0) ;; {min($1, $2)}
at at(%shared_ptr<job_t>.result, idx(min($1, $2))) = render_value($cb0, get_context()) ;; {min($1, $2)}
at %shared_ptr<job_t>.num_left = (%shared_ptr<job_t>.num_left + -1) ;; {min($1, $2)}
fn mmx::WebAPI::render_blocks sig=(const~vnx::request_id_t~&,~unsigned~long,~const~unsigned~long)~const
never break(loop)
each %shared_ptr<job_t>.num_left = min($1, $2)
each %shared_ptr<job_t>.request_id = $0
each resize(%shared_ptr<job_t>.result, min($1, $2))
each respond($0, render_value(%shared_ptr<job_t>.result, 0)) ;; !{min($1, $2)}
each get_block_at(@node, u32(($2 + -idx(min($1, $2)))), lambda, 0) ;; {min($1, $2)}
each at(%shared_ptr<job_t>.result, idx(min($1, $2))) = render_value($cb0, get_context()) ;; {min($1, $2)}
each %shared_ptr<job_t>.num_left = (%shared_ptr<job_t>.num_left + -1) ;; {min($1, $2)}
each respond($0, render_value(%shared_ptr<job_t>.result, 0)) ;; {min($1, $2)} ;; !{(%shared_ptr<job_t>.num_left + -1)}
never throw …
exit {did %shared_ptr<job_t>.num_left = min($1, $2)}
exit {did %shared_ptr<job_t>.request_id = $0}
exit {did resize(%shared_ptr<job_t>.result, min($1, $2))}
exit !{min($1, $2)} | {did get_block_at(@node, u32(($2 + -idx(min($1, $2)))), lambda, 0)}
exit {did respond($0, render_value(%shared_ptr<job_t>.result, 0))} | {min($1, $2)}
at %shared_ptr<job_t>.num_left = min($1, $2)
at %shared_ptr<job_t>.request_id = $0
at resize(%shared_ptr<job_t>.result, min($1, $2))
at respond($0, render_value(%shared_ptr<job_t>.result, 0))
at get_block_at(@node, u32(($2 + -idx(min($1, $2)))), lambda, 0) ;; {min($1, $2)}
at at(%shared_ptr<job_t>.result, idx(min($1, $2))) = render_value($cb0, get_context()) ;; {min($1, $2)}
at %shared_ptr<job_t>.num_left = (%shared_ptr<job_t>.num_left + -1) ;; {min($1, $2)}
fn mmx::WebAPI::render_transactions sig=(const~vnx::request_id_t~&,~unsigned~long,~const~unsigned~long,~const~std::vector<mmx::hash_t,~std::allocator<mmx::hash_t>>~&)~const
never break(loop)
each %shared_ptr<job_t>.num_left = min($1, (-min($2, size($3)) + size($3)))
each %shared_ptr<job_t>.request_id = $0
each resize(%shared_ptr<job_t>.result, min($1, (-min($2, size($3)) + size($3))))
each respond($0, render_value(%shared_ptr<job_t>.result, 0)) ;; !{min($1, (-min($2, size($3)) + size($3)))}
each get_tx_info(@node, at($3, ($2 + idx(min($1, (-min($2, size($3)) + size($3)))))), lambda, 0) ;; {min($1, (-min($2, size($3)) + size($3)))}
each add_contract(get_context(), elem($cb0.contracts).first, elem($cb0.contracts).second) ;; {min($1, (-min($2, size($3)) + size($3)))} ;; {$cb0} ;; {$cb0.id == at($3, ($2 + idx(min($1, (-min($2, size($3)) + size($3))))))}
each at(%shared_ptr<job_t>.result, idx(min($1, (-min($2, size($3)) + size($3))))) = render_value($cb0, get_context()) ;; {min($1, (-min($2, size($3)) + size($3)))} ;; {$cb0} ;; {$cb0.id == at($3, ($2 + idx(min($1, (-min($2, size($3)) + size($3))))))}
each %shared_ptr<job_t>.num_left = (%shared_ptr<job_t>.num_left + -1) ;; {min($1, (-min($2, size($3)) + size($3)))}
each push_back(%vector<Variant>, elem(%shared_ptr<job_t>.result)) ;; {min($1, (-min($2, size($3)) + size($3)))} ;; !{(%shared_ptr<job_t>.num_left + -1)} ;; !{empty(elem(%shared_ptr<job_t>.result))}
each respond($0, render_value(%vector<Variant>, 0)) ;; {min($1, (-min($2, size($3)) + size($3)))} ;; !{(%shared_ptr<job_t>.num_left + -1)}
never break($cb0.contracts)
never break(%shared_ptr<job_t>.result)
never throw …
exit {did %shared_ptr<job_t>.num_left = min($1, (-min($2, size($3)) + size($3)))}
exit {did %shared_ptr<job_t>.request_id = $0}
exit {did resize(%shared_ptr<job_t>.result, min($1, (-min($2, size($3)) + size($3))))}
exit !{min($1, (-min($2, size($3)) + size($3)))} | {did get_tx_info(@node, at($3, ($2 + idx(min($1, (-min($2, size($3)) + size($3)))))), lambda, 0)}
exit {did respond($0, render_value(%shared_ptr<job_t>.result, 0))} | {min($1, (-min($2, size($3)) + size($3)))}
at %shared_ptr<job_t>.num_left = min($1, (-min($2, size($3)) + size($3)))
at %shared_ptr<job_t>.request_id = $0
at resize(%shared_ptr<job_t>.result, min($1, (-min($2, size($3)) + size($3))))
at respond($0, render_value(%shared_ptr<job_t>.result, 0)) ;; !{min($1, (-min($2, size($3)) + size($3)))}
at get_tx_info(@node, at($3, ($2 + idx(min($1, (-min($2, size($3)) + size($3)))))), lambda, 0) ;; {min($1, (-min($2, size($3)) + size($3)))}
at add_contract(get_context(), elem($cb0.contracts).first, elem($cb0.contracts).second) ;; {min($1, (-min($2, size($3)) + size($3)))} ;; {$cb0} ;; {$cb0.id == at($3, ($2 + idx(min($1, (-min($2, size($3)) + size($3))))))}
at at(%shared_ptr<job_t>.result, idx(min($1, (-min($2, size($3)) + size($3))))) = render_value($cb0, get_context()) ;; {min($1, (-min($2, size($3)) + size($3)))} ;; {$cb0} ;; {$cb0.id == at($3, ($2 + idx(min($1, (-min($2, size($3)) + size($3))))))}
at %shared_ptr<job_t>.num_left = (%shared_ptr<job_t>.num_left + -1) ;; {min($1, (-min($2, size($3)) + size($3)))}
at push_back(%vector<Variant>, elem(%shared_ptr<job_t>.result)) ;; {min($1, (-min($2, size($3)) + size($3)))} ;; !{(%shared_ptr<job_t>.num_left + -1)} ;; !{empty(elem(%shared_ptr<job_t>.result))}
at respond($0, render_value(%vector<Variant>, 0)) ;; {min($1, (-min($2, size($3)) + size($3)))} ;; !{(%shared_ptr<job_t>.num_left + -1)}
fn mmx::WebAPI::render_balances sig=(const~vnx::request_id_t~&,~const~vnx::optional<mmx::addr_t>~&,~const~std::map<mmx::addr_t,~mmx::balance_t,~std::less<mmx::addr_t>,~std::allocator<std::pair<const~mmx::addr_t,~mmx::balance_t>>>~&)~const
each insert(%unordered_set<addr_t>, elem($2).first)
each get_context(%unordered_set<addr_t>, $0, lambda)
each push_back(%vector<addr_t>, elem($2).first) ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; {find_currency($cb0, elem($2).first).is_nft}
each at(%Object, "total") = to_value(elem($2).second.total, find_currency($cb0, elem($2).first).decimals) ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft}
each at(%Object, "spendable") = to_value(elem($2).second.spendable, find_currency($cb0, elem($2).first).decimals) ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft}
each at(%Object, "reserved") = to_value(elem($2).second.reserved, find_currency($cb0, elem($2).first).decimals) ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft}
each at(%Object, "locked") = to_value(elem($2).second.locked, find_currency($cb0, elem($2).first).decimals) ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft}
each at(%Object, "symbol") = find_currency($cb0, elem($2).first).symbol ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft}
each at(%Object, "decimals") = find_currency($cb0, elem($2).first).decimals ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft}
each at(%Object, "contract") = to_string(elem($2).first) ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft}
each at(%Object, "is_native") = true ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft} ;; {ctor(addr_t) == elem($2).first}
each at(%Object, "is_validated") = elem($2).second.is_validated ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft}
each push_back(%vector<Object>, %Object) ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft}
each respond($0, ctor(Variant)) ;; {$1} ;; {empty(%vector<Object>)} ;; {empty(%vector<addr_t>)}
each respond($0, ctor(Variant, true)) ;; {$1} ;; {empty(%vector<Object>)} ;; !{empty(%vector<addr_t>)}
each respond($0, at(%vector<Object>, 0)) ;; {$1} ;; !{empty(%vector<Object>)}
each at(%Object, "nfts") = render_value(%vector<addr_t>, 0) ;; !{$1}
each at(%Object, "balances") = %vector<Object> ;; !{$1}
each respond($0, %Object) ;; !{$1}
never break($2)
never throw …
exit {did get_context(%unordered_set<addr_t>, $0, lambda)}
exit {did insert(%unordered_set<addr_t>, elem($2).first)}
at insert(%unordered_set<addr_t>, elem($2).first)
at get_context(%unordered_set<addr_t>, $0, lambda)
at push_back(%vector<addr_t>, elem($2).first) ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; {find_currency($cb0, elem($2).first).is_nft}
at at(%Object, "total") = to_value(elem($2).second.total, find_currency($cb0, elem($2).first).decimals) ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft}
at at(%Object, "spendable") = to_value(elem($2).second.spendable, find_currency($cb0, elem($2).first).decimals) ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft}
at at(%Object, "reserved") = to_value(elem($2).second.reserved, find_currency($cb0, elem($2).first).decimals) ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft}
at at(%Object, "locked") = to_value(elem($2).second.locked, find_currency($cb0, elem($2).first).decimals) ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft}
at at(%Object, "symbol") = find_currency($cb0, elem($2).first).symbol ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft}
at at(%Object, "decimals") = find_currency($cb0, elem($2).first).decimals ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft}
at at(%Object, "contract") = to_string(elem($2).first) ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft}
at at(%Object, "is_native") = true ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft} ;; {ctor(addr_t) == elem($2).first}
at at(%Object, "is_validated") = elem($2).second.is_validated ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft}
at push_back(%vector<Object>, %Object) ;; !{$1} | {$1 == elem($2).first} ;; {find_currency($cb0, elem($2).first)} ;; !{find_currency($cb0, elem($2).first).is_nft}
at respond($0, ctor(Variant)) ;; {$1} ;; {empty(%vector<Object>)} ;; {empty(%vector<addr_t>)}
at respond($0, ctor(Variant, true)) ;; {$1} ;; {empty(%vector<Object>)} ;; !{empty(%vector<addr_t>)}
at respond($0, at(%vector<Object>, 0)) ;; {$1} ;; !{empty(%vector<Object>)}
at at(%Object, "nfts") = render_value(%vector<addr_t>, 0) ;; !{$1}
at at(%Object, "balances") = %vector<Object> ;; !{$1}
at respond($0, %Object) ;; !{$1}
fn mmx::WebAPI::handle sig=(std::shared_ptr<const~mmx::Block>)
never throw …
fn mmx::WebAPI::handle sig=(std::shared_ptr<const~mmx::ProofResponse>)
never break(loop)
each @proof_counter = (@proof_counter + 1)
each push_back(@proof_history, $0, @proof_counter)
each pop_front(@proof_history) ;; {@max_log_history < size(@proof_history)}
never throw …
exit !{@max_log_history < size(@proof_history)}
exit {did @proof_counter = (@proof_counter + 1)}
exit {did push_back(@proof_history, $0, @proof_counter)}
at @proof_counter = (@proof_counter + 1)
at push_back(@proof_history, $0, @proof_counter)
at pop_front(@proof_history) ;; {@max_log_history < size(@proof_history)}
fn mmx::WebAPI::handle sig=(std::shared_ptr<const~vnx::LogMsg>)
never break(loop)
each @log_counter = (@log_counter + 1)
each push_back(@log_history, $0, @log_counter)
each pop_front(@log_history) ;; {@max_log_history < size(@log_history)}
never throw …
exit !{@max_log_history < size(@log_history)}
exit {did @log_counter = (@log_counter + 1)}
exit {did push_back(@log_history, $0, @log_counter)}
at @log_counter = (@log_counter + 1)
at push_back(@log_history, $0, @log_counter)
at pop_front(@log_history) ;; {@max_log_history < size(@log_history)}
fn mmx::WebAPI::update sig=()
each get_height(@node, lambda, 0)
each @curr_height = $cb0
each get_synced_height(@node, lambda, 0)
each @synced_since = $cb0 ;; !{@is_synced} ;; {$cb0}
each @is_synced = {$cb0}
never throw …
exit {did get_height(@node, lambda, 0)}
exit {did get_synced_height(@node, lambda, 0)}
at get_height(@node, lambda, 0)
at @curr_height = $cb0
at get_synced_height(@node, lambda, 0)
at @synced_since = $cb0 ;; !{@is_synced} ;; {$cb0}
at @is_synced = {$cb0}
fn mmx::WebAPI::resolve_vm_varptr sig=(const~mmx::addr_t~&,~const~mmx::vm::varptr_t~&,~const~vnx::request_id_t~&,~const~unsigned~int,~const~std::function<void~(const~vnx::Variant~&)>~&)~const
never break($cb0)
each $4(ctor(Variant)) ;; !{$1}
each at(%Object, "__type") = "mmx.Exception" ;; {$1} ;; {@max_recursion < $3}
each at(%Object, "message") = ("Maximum recursion limit reached: " ++ to_string(@max_recursion)) ;; {$1} ;; {@max_recursion < $3}
each $4(ctor(Variant, %Object)) ;; {$1} ;; {@max_recursion < $3}
each read_storage_var(@node, $0, to_ref($1), 4294967295, bind(&resolve_vm_varptr, this, $0, std::placeholders::_1, $2, ($3 + 1), $4), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_REF}
each read_storage_array(@node, $0, to_ref($1), 4294967295, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_ARRAY}
each resize(%shared_ptr<job_t>.out, size($cb0)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_ARRAY}
each resolve_vm_varptr($0, elem($cb0), $2, ($3 + 1), lambda) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_ARRAY}
each at(%shared_ptr<job_t>.out, idx($cb0)) = $cb0 ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_ARRAY}
each %shared_ptr<job_t>.k = (%shared_ptr<job_t>.k + 1) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_ARRAY}
each $4(ctor(Variant, %shared_ptr<job_t>.out)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_ARRAY} ;; {(%shared_ptr<job_t>.k + 1) == size($cb0)}
each $4(ctor(Variant, %shared_ptr<job_t>.out)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_ARRAY} ;; {empty($cb0)}
each read_storage_map(@node, $0, to_ref($1), 4294967295, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_MAP}
each resolve_vm_varptr($0, elem($cb0).second, $2, ($3 + 1), lambda) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_MAP}
each at(%shared_ptr<job_t>.out, ite({elem($cb0).first}, ite({elem($cb0).first.type == vm::TYPE_BINARY}, to_string_value_hex(elem($cb0).first), ite({elem($cb0).first.type == vm::TYPE_STRING}, to_string_value(elem($cb0).first), ite({elem($cb0).first.type == vm::TYPE_UINT}, str(to_uint(elem($cb0).first), 10, 0), to_string(elem($cb0).first)))), ctor(string))) = $cb0 ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_MAP}
each at(%shared_ptr<job_t>.out, to_string(to_addr(elem($cb0).first))) = $cb0 ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_MAP} ;; {elem($cb0).first} ;; {elem($cb0).first.type == vm::TYPE_BINARY} ;; {32 == get_size(elem($cb0).first)} ;; {to_addr(elem($cb0).first)}
each %shared_ptr<job_t>.k = (%shared_ptr<job_t>.k + 1) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_MAP}
each $4(ctor(Variant, %shared_ptr<job_t>.out)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_MAP} ;; {(%shared_ptr<job_t>.k + 1) == size($cb0)}
each $4(ctor(Variant, %shared_ptr<job_t>.out)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_MAP} ;; {empty($cb0)}
each $4(ctor(Variant, str(to_uint($1), 10, 0))) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_UINT} ;; {(to_uint($1) >> 64)}
each $4(ctor(Variant, to_uint($1))) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_UINT} ;; !{(to_uint($1) >> 64)}
each $4(ctor(Variant, to_string_value($1))) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_STRING}
each at(%Object, "hex") = to_string_value_hex($1) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_BINARY}
each at(%Object, "hash") = to_string(to_hash($1)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_BINARY} ;; {64 == size(to_string_value_hex($1))}
each at(%Object, "address") = to_string(to_addr($1)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_BINARY} ;; {64 == size(to_string_value_hex($1))}
each $4(ctor(Variant, %Object)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_BINARY}
each $4(ctor(Variant, true)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_TRUE}
each $4(ctor(Variant, false)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_FALSE}
each $4(ctor(Variant)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_NIL}
each $4(ctor(Variant, to_string($1))) ;; {$1} ;; !{@max_recursion < $3} ;; !{$1.type == vm::TYPE_REF} ;; !{$1.type == vm::TYPE_ARRAY} ;; !{$1.type == vm::TYPE_MAP} ;; !{$1.type == vm::TYPE_UINT} ;; !{$1.type == vm::TYPE_STRING} ;; !{$1.type == vm::TYPE_BINARY} ;; !{$1.type == vm::TYPE_TRUE} ;; !{$1.type == vm::TYPE_FALSE} ;; !{$1.type == vm::TYPE_NIL}
never throw …
exit {$1} | {did $4(ctor(Variant))}
exit !{$1} | !{@max_recursion < $3} | {did $4(ctor(Variant, %Object))}
exit !{$1} | !{@max_recursion < $3} | {did at(%Object, "__type") = "mmx.Exception"}
exit !{$1.type == vm::TYPE_REF} | !{$1} | {@max_recursion < $3} | {did read_storage_var(@node, $0, to_ref($1), 4294967295, bind(&resolve_vm_varptr, this, $0, std::placeholders::_1, $2, ($3 + 1), $4), bind(&respond_ex, this, $2, std::placeholders::_1))}
exit !{$1.type == vm::TYPE_ARRAY} | !{$1} | {$1.type == vm::TYPE_REF} | {@max_recursion < $3} | {did read_storage_array(@node, $0, to_ref($1), 4294967295, lambda, bind(&respond_ex, this, $2, std::placeholders::_1))}
at $4(ctor(Variant))
at at(%Object, "__type") = "mmx.Exception" ;; {$1} ;; {@max_recursion < $3}
at at(%Object, "message") = ("Maximum recursion limit reached: " ++ to_string(@max_recursion)) ;; {$1} ;; {@max_recursion < $3}
at $4(ctor(Variant, %Object)) ;; {$1}
at read_storage_var(@node, $0, to_ref($1), 4294967295, bind(&resolve_vm_varptr, this, $0, std::placeholders::_1, $2, ($3 + 1), $4), bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_REF}
at read_storage_array(@node, $0, to_ref($1), 4294967295, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_ARRAY}
at resize(%shared_ptr<job_t>.out, size($cb0)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_ARRAY}
at resolve_vm_varptr($0, elem($cb0), $2, ($3 + 1), lambda) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_ARRAY}
at at(%shared_ptr<job_t>.out, idx($cb0)) = $cb0 ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_ARRAY}
at %shared_ptr<job_t>.k = (%shared_ptr<job_t>.k + 1) ;; {$1} ;; !{@max_recursion < $3}
at $4(ctor(Variant, %shared_ptr<job_t>.out)) ;; {$1} ;; !{@max_recursion < $3}
at read_storage_map(@node, $0, to_ref($1), 4294967295, lambda, bind(&respond_ex, this, $2, std::placeholders::_1)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_MAP}
at resolve_vm_varptr($0, elem($cb0).second, $2, ($3 + 1), lambda) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_MAP}
at at(%shared_ptr<job_t>.out, ite({elem($cb0).first}, ite({elem($cb0).first.type == vm::TYPE_BINARY}, to_string_value_hex(elem($cb0).first), ite({elem($cb0).first.type == vm::TYPE_STRING}, to_string_value(elem($cb0).first), ite({elem($cb0).first.type == vm::TYPE_UINT}, str(to_uint(elem($cb0).first), 10, 0), to_string(elem($cb0).first)))), ctor(string))) = $cb0 ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_MAP}
at at(%shared_ptr<job_t>.out, to_string(to_addr(elem($cb0).first))) = $cb0 ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_MAP} ;; {elem($cb0).first} ;; {elem($cb0).first.type == vm::TYPE_BINARY} ;; {32 == get_size(elem($cb0).first)} ;; {to_addr(elem($cb0).first)}
at $4(ctor(Variant, str(to_uint($1), 10, 0))) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_UINT} ;; {(to_uint($1) >> 64)}
at $4(ctor(Variant, to_uint($1))) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_UINT} ;; !{(to_uint($1) >> 64)}
at $4(ctor(Variant, to_string_value($1))) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_STRING}
at at(%Object, "hex") = to_string_value_hex($1) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_BINARY}
at at(%Object, "hash") = to_string(to_hash($1)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_BINARY} ;; {64 == size(to_string_value_hex($1))}
at at(%Object, "address") = to_string(to_addr($1)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_BINARY} ;; {64 == size(to_string_value_hex($1))}
at $4(ctor(Variant, true)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_TRUE}
at $4(ctor(Variant, false)) ;; {$1} ;; !{@max_recursion < $3} ;; {$1.type == vm::TYPE_FALSE}
at $4(ctor(Variant, to_string($1))) ;; {$1} ;; !{@max_recursion < $3} ;; !{$1.type == vm::TYPE_REF} ;; !{$1.type == vm::TYPE_ARRAY} ;; !{$1.type == vm::TYPE_MAP} ;; !{$1.type == vm::TYPE_UINT} ;; !{$1.type == vm::TYPE_STRING} ;; !{$1.type == vm::TYPE_BINARY} ;; !{$1.type == vm::TYPE_TRUE} ;; !{$1.type == vm::TYPE_FALSE} ;; !{$1.type == vm::TYPE_NIL}
