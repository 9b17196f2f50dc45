tus src/contract/plot_nft.js src/contract/virtual_plot.js src/contract/smart_wallet.js
fn js::plot_nft::init
each @owner = bech32($0)
never throw …
exit {did @owner = bech32($0)}
at @owner = bech32($0)
effects @owner = bech32($0)
fn js::plot_nft::check_owner
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
effects none
fn js::plot_nft::is_locked
never throw …
true {@ctx.height < @unlock_height} | {@unlock_height == null_}
false !{@ctx.height < @unlock_height}
false !{@unlock_height == null_}
effects none
fn js::plot_nft::mmx_reward_target
never throw …
exit {ret = string_bech32(ite((!{@ctx.height < @unlock_height} && !{@unlock_height == null_}), ite({$0}, bech32($0), @owner), @target))}
effects none
fn js::plot_nft::lock
each @target = bech32($0) ;; !{@ctx.height < @unlock_height} ;; !{@unlock_height == null_}
each @server_url = $1 ;; !{@ctx.height < @unlock_height} ;; !{@unlock_height == null_}
each @unlock_height = null_ ;; !{@ctx.height < @unlock_height} ;; !{@unlock_height == null_}
raise !{@ctx.user == @owner}
raise {@ctx.height < @unlock_height} | {@unlock_height == null_}
exit !{@ctx.height < @unlock_height}
exit !{@unlock_height == null_}
exit {@ctx.user == @owner}
exit {did @server_url = $1}
exit {did @target = bech32($0)}
exit {did @unlock_height = null_}
at @target = bech32($0)
at @server_url = $1
at @unlock_height = null_
effects @target = bech32($0) ;; @server_url = $1 ;; @unlock_height = null_
fn js::plot_nft::unlock
each @unlock_height = (@ctx.height + 256) ;; {@unlock_height == null_}
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit !{@unlock_height == null_} | {did @unlock_height = (@ctx.height + 256)}
at @unlock_height = (@ctx.height + 256) ;; {@unlock_height == null_}
effects @unlock_height = (@ctx.height + 256)
fn js::plot_nft::claim_all
each send(@ctx.user, balance(ite({$0}, bech32($0), bech32())), ite({$0}, bech32($0), bech32()), "mmx_plot_nft_claim")
raise {@ctx.height < @unlock_height} | {@unlock_height == null_} ;; !{@ctx.user == @target}
raise !{@ctx.height < @unlock_height} ;; !{@unlock_height == null_} ;; !{@ctx.user == @owner}
exit {did send(@ctx.user, balance(ite({$0}, bech32($0), bech32())), ite({$0}, bech32($0), bech32()), "mmx_plot_nft_claim")}
exit !{@ctx.height < @unlock_height} | {@ctx.user == @target}
exit !{@unlock_height == null_} | {@ctx.user == @target}
exit {@ctx.height < @unlock_height} | {@ctx.user == @owner} | {@unlock_height == null_}
at send(@ctx.user, balance(ite({$0}, bech32($0), bech32())), ite({$0}, bech32($0), bech32()), "mmx_plot_nft_claim")
effects send(@ctx.user, balance(ite({$0}, bech32($0), bech32())), ite({$0}, bech32($0), bech32()), "mmx_plot_nft_claim")
fn js::plot_nft::transfer
each @owner = bech32($0)
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit {did @owner = bech32($0)}
at @owner = bech32($0)
effects @owner = bech32($0)
fn js::plot_nft::set_server_url
each @server_url = $0
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit {did @server_url = $0}
at @server_url = $0
effects @server_url = $0
fn js::plot_nft::_init_state
each @owner = null_
each @target = null_
each @unlock_height = 0
each @server_url = null_
never throw …
exit {did @owner = null_}
exit {did @server_url = null_}
exit {did @target = null_}
exit {did @unlock_height = 0}
at @owner = null_
at @target = null_
at @unlock_height = 0
at @server_url = null_
effects @owner = null_ ;; @target = null_ ;; @unlock_height = 0 ;; @server_url = null_
fn js::plot_nft::_methods
each method("check_owner", "const")
each method("is_locked", "const public")
each method("mmx_reward_target", "const public")
each method("lock", "public")
each method("unlock", "public")
each method("claim_all", "public")
each method("transfer", "public")
each method("set_server_url", "public")
never throw …
exit {did method("check_owner", "const")}
exit {did method("is_locked", "const public")}
exit {did method("mmx_reward_target", "const public")}
exit {did method("lock", "public")}
exit {did method("unlock", "public")}
exit {did method("claim_all", "public")}
exit {did method("transfer", "public")}
exit {did method("set_server_url", "public")}
only method(…, "…public…") ;; method("is_locked", "const public") ;; method("mmx_reward_target", "const public") ;; method("lock", "public") ;; method("unlock", "public") ;; method("claim_all", "public") ;; method("transfer", "public") ;; method("set_server_url", "public")
never method(…, "…static…")
fn js::virtual_plot::init
each @owner = bech32($0)
never throw …
exit {did @owner = bech32($0)}
at @owner = bech32($0)
effects @owner = bech32($0)
fn js::virtual_plot::deposit
never throw …
effects none
fn js::virtual_plot::withdraw
each send(@owner, ite({bech32($1) == bech32()}, ((90 * uint($0)) / 100), uint($0)), bech32($1), "mmx_virtual_plot_withdraw") ;; {@ctx.user == @owner}
each send(bech32(), (-ite({bech32($1) == bech32()}, ((90 * uint($0)) / 100), uint($0)) + uint($0)), bech32($1), "mmx_virtual_plot_burn") ;; {@ctx.user == @owner}
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit {did send(@owner, ite({bech32($1) == bech32()}, ((90 * uint($0)) / 100), uint($0)), bech32($1), "mmx_virtual_plot_withdraw")}
exit {did send(bech32(), (-ite({bech32($1) == bech32()}, ((90 * uint($0)) / 100), uint($0)) + uint($0)), bech32($1), "mmx_virtual_plot_burn")}
at send(@owner, ite({bech32($1) == bech32()}, ((90 * uint($0)) / 100), uint($0)), bech32($1), "mmx_virtual_plot_withdraw")
at send(bech32(), (-ite({bech32($1) == bech32()}, ((90 * uint($0)) / 100), uint($0)) + uint($0)), bech32($1), "mmx_virtual_plot_burn")
effects send(@owner, ite({bech32($1) == bech32()}, ((90 * uint($0)) / 100), uint($0)), bech32($1), "mmx_virtual_plot_withdraw") ;; send(bech32(), (-ite({bech32($1) == bech32()}, ((90 * uint($0)) / 100), uint($0)) + uint($0)), bech32($1), "mmx_virtual_plot_burn")
fn js::virtual_plot::_init_state
each @owner = null_
never throw …
exit {did @owner = null_}
at @owner = null_
effects @owner = null_
fn js::virtual_plot::_methods
each method("deposit", "public")
each method("withdraw", "public")
never throw …
exit {did method("deposit", "public")}
exit {did method("withdraw", "public")}
only method(…, "…public…") ;; method("deposit", "public") ;; method("withdraw", "public")
never method(…, "…static…")
fn js::smart_wallet::init
each @owner = bech32($0)
never throw …
exit {did @owner = bech32($0)}
at @owner = bech32($0)
effects @owner = bech32($0)
fn js::smart_wallet::transfer
each send(bech32($0), uint($1), bech32($2), $3)
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit {did send(bech32($0), uint($1), bech32($2), $3)}
at send(bech32($0), uint($1), bech32($2), $3)
effects send(bech32($0), uint($1), bech32($2), $3)
fn js::smart_wallet::add_plan
each %js::object.amount = $1
each %js::object.currency = bech32($2)
each %js::object.target = bech32($3)
each %js::object.memo = ite({$4 == null_}, $4, to_string($4))
each %js::object.interval = $5
each %js::object.next_pay = ite({$6 == null_}, @ctx.height, $6)
each %js::object.active = true
each at(@plans, $0) = %js::object
raise !{@ctx.user == @owner}
raise {at(@plans, $0)} ;; {at(@plans, $0).active}
exit {@ctx.user == @owner}
exit {did %js::object.active = true}
exit {did %js::object.amount = $1}
exit {did %js::object.currency = bech32($2)}
exit {did %js::object.interval = $5}
exit {did %js::object.next_pay = ite({$6 == null_}, @ctx.height, $6)}
exit {did %js::object.target = bech32($3)}
exit {did at(@plans, $0) = %js::object}
exit !{at(@plans, $0).active} | !{at(@plans, $0)}
at %js::object.amount = $1
at %js::object.currency = bech32($2)
at %js::object.target = bech32($3)
at %js::object.memo = ite({$4 == null_}, $4, to_string($4))
at %js::object.interval = $5
at %js::object.next_pay = ite({$6 == null_}, @ctx.height, $6)
at %js::object.active = true
at at(@plans, $0) = %js::object
effects at(@plans, $0) = %js::object
only ctor:js::object(…) ;; ctor:js::object(obj())
fn js::smart_wallet::cancel_plan
each at(@plans, $0).active = false ;; {at(@plans, $0)}
raise !{@ctx.user == @owner}
raise !{at(@plans, $0)}
exit {@ctx.user == @owner}
exit {at(@plans, $0)}
exit {did at(@plans, $0).active = false}
at at(@plans, $0).active = false
effects at(@plans, $0).active = false
fn js::smart_wallet::plan_payment
each at(@plans, $0).next_pay = (at(@plans, $0).interval + at(@plans, $0).next_pay) ;; {at(@plans, $0)} ;; {at(@plans, $0).active} ;; !{@ctx.height < at(@plans, $0).next_pay}
each send(at(@plans, $0).target, at(@plans, $0).amount, at(@plans, $0).currency, at(@plans, $0).memo) ;; {at(@plans, $0)} ;; {at(@plans, $0).active} ;; !{@ctx.height < at(@plans, $0).next_pay}
raise !{at(@plans, $0)}
raise {at(@plans, $0)} ;; !{at(@plans, $0).active}
raise {at(@plans, $0)} ;; {at(@plans, $0).active} ;; {@ctx.height < at(@plans, $0).next_pay}
exit !{@ctx.height < at(@plans, $0).next_pay}
exit {at(@plans, $0).active}
exit {at(@plans, $0)}
exit {did at(@plans, $0).next_pay = (at(@plans, $0).interval + at(@plans, $0).next_pay)}
exit {did send(at(@plans, $0).target, at(@plans, $0).amount, at(@plans, $0).currency, at(@plans, $0).memo)}
at at(@plans, $0).next_pay = (at(@plans, $0).interval + at(@plans, $0).next_pay)
at send(at(@plans, $0).target, at(@plans, $0).amount, at(@plans, $0).currency, at(@plans, $0).memo)
effects at(@plans, $0).next_pay = (at(@plans, $0).interval + at(@plans, $0).next_pay) ;; send(at(@plans, $0).target, at(@plans, $0).amount, at(@plans, $0).currency, at(@plans, $0).memo)
fn js::smart_wallet::_init_state
each @owner = null_
each @plans = obj()
never throw …
exit {did @owner = null_}
exit {did @plans = obj()}
at @owner = null_
at @plans = obj()
effects @owner = null_ ;; @plans = obj()
fn js::smart_wallet::_methods
each method("transfer", "public")
each method("add_plan", "public")
each method("cancel_plan", "public")
each method("plan_payment", "public")
never throw …
exit {did method("transfer", "public")}
exit {did method("add_plan", "public")}
exit {did method("cancel_plan", "public")}
exit {did method("plan_payment", "public")}
only method(…, "…public…") ;; method("transfer", "public") ;; method("add_plan", "public") ;; method("cancel_plan", "public") ;; method("plan_payment", "public")
never method(…, "…static…")
