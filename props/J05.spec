tus src/contract/escrow.js src/contract/relay.js src/contract/time_lock.js src/contract/transfer.js
fn js::escrow::init
each @source = bech32($0)
each @target = bech32($2)
each @agent = bech32($1)
never throw …
exit {did @agent = bech32($1)}
exit {did @source = bech32($0)}
exit {did @target = bech32($2)}
at @source = bech32($0)
at @target = bech32($2)
at @agent = bech32($1)
effects @source = bech32($0) ;; @target = bech32($2) ;; @agent = bech32($1)
fn js::escrow::deposit
never throw …
effects none
fn js::escrow::unlock
each send(@target, balance(ite({$0}, bech32($0), bech32())), ite({$0}, bech32($0), bech32()), "mmx_escrow_unlock") ;; {@agent == @ctx.user}
raise !{@agent == @ctx.user}
exit {@agent == @ctx.user}
exit {did send(@target, balance(ite({$0}, bech32($0), bech32())), ite({$0}, bech32($0), bech32()), "mmx_escrow_unlock")}
at send(@target, balance(ite({$0}, bech32($0), bech32())), ite({$0}, bech32($0), bech32()), "mmx_escrow_unlock")
effects send(@target, balance(ite({$0}, bech32($0), bech32())), ite({$0}, bech32($0), bech32()), "mmx_escrow_unlock")
fn js::escrow::cancel
each send(@source, balance(ite({$0}, bech32($0), bech32())), ite({$0}, bech32($0), bech32()), "mmx_escrow_revoke") ;; {@agent == @ctx.user}
raise !{@agent == @ctx.user}
exit {@agent == @ctx.user}
exit {did send(@source, balance(ite({$0}, bech32($0), bech32())), ite({$0}, bech32($0), bech32()), "mmx_escrow_revoke")}
at send(@source, balance(ite({$0}, bech32($0), bech32())), ite({$0}, bech32($0), bech32()), "mmx_escrow_revoke")
effects send(@source, balance(ite({$0}, bech32($0), bech32())), ite({$0}, bech32($0), bech32()), "mmx_escrow_revoke")
fn js::escrow::_init_state
each @source = null_
each @target = null_
each @agent = null_
never throw …
exit {did @agent = null_}
exit {did @source = null_}
exit {did @target = null_}
at @source = null_
at @target = null_
at @agent = null_
effects @source = null_ ;; @target = null_ ;; @agent = null_
fn js::escrow::_methods
each method("deposit", "public")
each method("unlock", "public")
each method("cancel", "public")
never throw …
exit {did method("deposit", "public")}
exit {did method("unlock", "public")}
exit {did method("cancel", "public")}
only method(…, "…public…") ;; method("deposit", "public") ;; method("unlock", "public") ;; method("cancel", "public")
never method(…, "…static…")
fn js::relay::init
each @owner = bech32($0)
never throw …
exit {did @owner = bech32($0)}
at @owner = bech32($0)
effects @owner = bech32($0)
fn js::relay::claim_all
each send(@owner, balance(ite({$0}, bech32($0), bech32())), ite({$0}, bech32($0), bech32())) ;; {@ctx.user == @owner}
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit {did send(@owner, balance(ite({$0}, bech32($0), bech32())), ite({$0}, bech32($0), bech32()))}
at send(@owner, balance(ite({$0}, bech32($0), bech32())), ite({$0}, bech32($0), bech32()))
effects send(@owner, balance(ite({$0}, bech32($0), bech32())), ite({$0}, bech32($0), bech32()))
fn js::relay::transfer
each @transfer_target = bech32($0) ;; {@ctx.user == @owner}
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit {did @transfer_target = bech32($0)}
at @transfer_target = bech32($0)
effects @transfer_target = bech32($0)
fn js::relay::complete
each @owner = @transfer_target ;; {@transfer_target} ;; {@ctx.user == @transfer_target}
each @transfer_target = null_ ;; {@transfer_target} ;; {@ctx.user == @transfer_target}
raise !{@transfer_target}
raise {@transfer_target} ;; !{@ctx.user == @transfer_target}
exit {@ctx.user == @transfer_target}
exit {@transfer_target}
exit {did @owner = @transfer_target}
exit {did @transfer_target = null_}
at @owner = @transfer_target
at @transfer_target = null_
effects @owner = @transfer_target ;; @transfer_target = null_
fn js::relay::_init_state
each @owner = null_
each @transfer_target = null_
never throw …
exit {did @owner = null_}
exit {did @transfer_target = null_}
at @owner = null_
at @transfer_target = null_
effects @owner = null_ ;; @transfer_target = null_
fn js::relay::_methods
each method("claim_all", "public")
each method("transfer", "public")
each method("complete", "public")
never throw …
exit {did method("claim_all", "public")}
exit {did method("transfer", "public")}
exit {did method("complete", "public")}
only method(…, "…public…") ;; method("claim_all", "public") ;; method("transfer", "public") ;; method("complete", "public")
never method(…, "…static…")
fn js::time_lock::init
each @owner = bech32($0)
each @unlock_height = uint($1)
never throw …
exit {did @owner = bech32($0)}
exit {did @unlock_height = uint($1)}
at @owner = bech32($0)
at @unlock_height = uint($1)
effects @owner = bech32($0) ;; @unlock_height = uint($1)
fn js::time_lock::check_owner
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
effects none
fn js::time_lock::is_locked
never throw …
true {@ctx.height < @unlock_height}
false !{@ctx.height < @unlock_height}
effects none
fn js::time_lock::deposit
never throw …
effects none
fn js::time_lock::withdraw
each send(bech32($0), $1, bech32($2)) ;; !{@ctx.height < @unlock_height}
raise !{@ctx.user == @owner}
raise {@ctx.height < @unlock_height}
exit !{@ctx.height < @unlock_height}
exit {@ctx.user == @owner}
exit {did send(bech32($0), $1, bech32($2))}
at send(bech32($0), $1, bech32($2))
effects send(bech32($0), $1, bech32($2))
fn js::time_lock::set_unlock_height
each @unlock_height = $0 ;; !{$0 < @unlock_height}
raise !{@ctx.user == @owner}
raise {$0 < @unlock_height}
exit !{$0 < @unlock_height}
exit {@ctx.user == @owner}
exit {did @unlock_height = $0}
at @unlock_height = $0
effects @unlock_height = $0
fn js::time_lock::_init_state
each @owner = null_
each @unlock_height = null_
never throw …
exit {did @owner = null_}
exit {did @unlock_height = null_}
at @owner = null_
at @unlock_height = null_
effects @owner = null_ ;; @unlock_height = null_
fn js::time_lock::_methods
each method("check_owner", "const")
each method("is_locked", "const public")
each method("deposit", "public")
each method("withdraw", "public")
each method("set_unlock_height", "public")
never throw …
exit {did method("check_owner", "const")}
exit {did method("is_locked", "const public")}
exit {did method("deposit", "public")}
exit {did method("withdraw", "public")}
exit {did method("set_unlock_height", "public")}
only method(…, "…public…") ;; method("is_locked", "const public") ;; method("deposit", "public") ;; method("withdraw", "public") ;; method("set_unlock_height", "public")
never method(…, "…static…")
fn js::transfer::init
each @source = bech32($0)
each @target = bech32($1)
never throw …
exit {did @source = bech32($0)}
exit {did @target = bech32($1)}
at @source = bech32($0)
at @target = bech32($1)
effects @source = bech32($0) ;; @target = bech32($1)
fn js::transfer::receive
each send(@target, balance(bech32($0)), bech32($0)) ;; {@ctx.user == @target}
raise !{@ctx.user == @target}
exit {@ctx.user == @target}
exit {did send(@target, balance(bech32($0)), bech32($0))}
at send(@target, balance(bech32($0)), bech32($0))
effects send(@target, balance(bech32($0)), bech32($0))
fn js::transfer::cancel
each send(@source, balance(bech32($0)), bech32($0)) ;; {@ctx.user == @source}
raise !{@ctx.user == @source}
exit {@ctx.user == @source}
exit {did send(@source, balance(bech32($0)), bech32($0))}
at send(@source, balance(bech32($0)), bech32($0))
effects send(@source, balance(bech32($0)), bech32($0))
fn js::transfer::_init_state
each @source = null_
each @target = null_
never throw …
exit {did @source = null_}
exit {did @target = null_}
at @source = null_
at @target = null_
effects @source = null_ ;; @target = null_
fn js::transfer::_methods
each method("receive", "public")
each method("cancel", "public")
never throw …
exit {did method("receive", "public")}
exit {did method("cancel", "public")}
only method(…, "…public…") ;; method("receive", "public") ;; method("cancel", "public")
never method(…, "…static…")
