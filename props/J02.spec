tus src/contract/offer.js src/contract/nft_offer.js
fn js::offer::init
each @owner = bech32($0)
each @bid_currency = bech32($1)
each @ask_currency = bech32($2)
each @inv_price = uint($3)
each @partner = bech32($4) ;; {uint($3)} ;; !{bech32($1) == bech32($2)} ;; {$4}
each @last_update = @ctx.height ;; {uint($3)} ;; !{bech32($1) == bech32($2)}
raise !{uint($3)}
raise {uint($3)} ;; {bech32($1) == bech32($2)}
exit !{bech32($1) == bech32($2)}
exit {did @ask_currency = bech32($2)}
exit {did @bid_currency = bech32($1)}
exit {did @inv_price = uint($3)}
exit {did @last_update = @ctx.height}
exit {did @owner = bech32($0)}
exit {uint($3)}
exit !{$4} | {did @partner = bech32($4)}
at @owner = bech32($0)
at @bid_currency = bech32($1)
at @ask_currency = bech32($2)
at @inv_price = uint($3)
at @partner = bech32($4) ;; {$4}
at @last_update = @ctx.height
effects @owner = bech32($0) ;; @bid_currency = bech32($1) ;; @ask_currency = bech32($2) ;; @inv_price = uint($3) ;; @partner = bech32($4) ;; @last_update = @ctx.height
fn js::offer::deposit
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
effects none
fn js::offer::cancel
each send(@owner, balance(@bid_currency), @bid_currency, "mmx_offer_cancel")
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit {did send(@owner, balance(@bid_currency), @bid_currency, "mmx_offer_cancel")}
at send(@owner, balance(@bid_currency), @bid_currency, "mmx_offer_cancel")
effects send(@owner, balance(@bid_currency), @bid_currency, "mmx_offer_cancel")
fn js::offer::withdraw
each send(@owner, balance(@ask_currency), @ask_currency, "mmx_offer_withdraw")
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit {did send(@owner, balance(@ask_currency), @ask_currency, "mmx_offer_withdraw")}
at send(@owner, balance(@ask_currency), @ask_currency, "mmx_offer_withdraw")
effects send(@owner, balance(@ask_currency), @ask_currency, "mmx_offer_withdraw")
fn js::offer::recover
each send(@owner, uint($0), bech32($1), "mmx_offer_recover")
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit {did send(@owner, uint($0), bech32($1), "mmx_offer_recover")}
at send(@owner, uint($0), bech32($1), "mmx_offer_recover")
effects send(@owner, uint($0), bech32($1), "mmx_offer_recover")
fn js::offer::set_price
each @inv_price = uint($0) ;; !{@ctx.height < (@last_update + 1080)} ;; {uint($0)} ;; !{@inv_price == uint($0)}
each @last_update = @ctx.height ;; !{@ctx.height < (@last_update + 1080)} ;; {uint($0)} ;; !{@inv_price == uint($0)}
raise !{@ctx.user == @owner}
raise {@ctx.height < (@last_update + 1080)}
raise !{@ctx.height < (@last_update + 1080)} ;; !{uint($0)}
exit !{@ctx.height < (@last_update + 1080)}
exit {@ctx.user == @owner}
exit {uint($0)}
exit {@inv_price == uint($0)} | {did @inv_price = uint($0)}
exit {@inv_price == uint($0)} | {did @last_update = @ctx.height}
at @inv_price = uint($0) ;; !{@inv_price == uint($0)}
at @last_update = @ctx.height ;; !{@inv_price == uint($0)}
effects @inv_price = uint($0) ;; @last_update = @ctx.height
fn js::offer::trade
each send(bech32($0), ((@ctx.deposit.amount * @inv_price) >> 64), @bid_currency, "mmx_offer_trade") ;; {@inv_price == uint($1)} ;; {@ask_currency == @ctx.deposit.currency} ;; {((@ctx.deposit.amount * @inv_price) >> 64)}
raise {@partner} ;; !{@ctx.user == @partner}
raise !{@inv_price == uint($1)}
raise {@inv_price == uint($1)} ;; !{@ask_currency == @ctx.deposit.currency}
raise {@inv_price == uint($1)} ;; {@ask_currency == @ctx.deposit.currency} ;; !{((@ctx.deposit.amount * @inv_price) >> 64)}
exit {((@ctx.deposit.amount * @inv_price) >> 64)}
exit {@ask_currency == @ctx.deposit.currency}
exit {@inv_price == uint($1)}
exit {did send(bech32($0), ((@ctx.deposit.amount * @inv_price) >> 64), @bid_currency, "mmx_offer_trade")}
exit !{@partner} | {@ctx.user == @partner}
at send(bech32($0), ((@ctx.deposit.amount * @inv_price) >> 64), @bid_currency, "mmx_offer_trade")
effects send(bech32($0), ((@ctx.deposit.amount * @inv_price) >> 64), @bid_currency, "mmx_offer_trade")
fn js::offer::accept
each send(bech32($0), min(((@ctx.deposit.amount * @inv_price) >> 64), balance(@bid_currency)), @bid_currency, "mmx_offer_accept") ;; {@inv_price == uint($1)} ;; {@ask_currency == @ctx.deposit.currency} ;; {min(((@ctx.deposit.amount * @inv_price) >> 64), balance(@bid_currency))}
each send(bech32($0), (-(((18446744073709551616 * min(((@ctx.deposit.amount * @inv_price) >> 64), balance(@bid_currency))) + @inv_price + -1) / @inv_price) + @ctx.deposit.amount), @ask_currency, "mmx_offer_accept_return") ;; {@inv_price == uint($1)} ;; {@ask_currency == @ctx.deposit.currency} ;; {min(((@ctx.deposit.amount * @inv_price) >> 64), balance(@bid_currency))}
raise {@partner} ;; !{@ctx.user == @partner}
raise !{@inv_price == uint($1)}
raise {@inv_price == uint($1)} ;; !{@ask_currency == @ctx.deposit.currency}
raise {@inv_price == uint($1)} ;; {@ask_currency == @ctx.deposit.currency} ;; !{min(((@ctx.deposit.amount * @inv_price) >> 64), balance(@bid_currency))}
exit {@ask_currency == @ctx.deposit.currency}
exit {@inv_price == uint($1)}
exit {did send(bech32($0), (-(((18446744073709551616 * min(((@ctx.deposit.amount * @inv_price) >> 64), balance(@bid_currency))) + @inv_price + -1) / @inv_price) + @ctx.deposit.amount), @ask_currency, "mmx_offer_accept_return")}
exit {did send(bech32($0), min(((@ctx.deposit.amount * @inv_price) >> 64), balance(@bid_currency)), @bid_currency, "mmx_offer_accept")}
exit {min(((@ctx.deposit.amount * @inv_price) >> 64), balance(@bid_currency))}
exit !{@partner} | {@ctx.user == @partner}
at send(bech32($0), min(((@ctx.deposit.amount * @inv_price) >> 64), balance(@bid_currency)), @bid_currency, "mmx_offer_accept")
at send(bech32($0), (-(((18446744073709551616 * min(((@ctx.deposit.amount * @inv_price) >> 64), balance(@bid_currency))) + @inv_price + -1) / @inv_price) + @ctx.deposit.amount), @ask_currency, "mmx_offer_accept_return")
effects send(bech32($0), min(((@ctx.deposit.amount * @inv_price) >> 64), balance(@bid_currency)), @bid_currency, "mmx_offer_accept") ;; send(bech32($0), (-(((18446744073709551616 * min(((@ctx.deposit.amount * @inv_price) >> 64), balance(@bid_currency))) + @inv_price + -1) / @inv_price) + @ctx.deposit.amount), @ask_currency, "mmx_offer_accept_return")
fn js::offer::_init_state
each @owner = null_
each @partner = null_
each @bid_currency = null_
each @ask_currency = null_
each @inv_price = null_
each @last_update = null_
never throw …
exit {did @ask_currency = null_}
exit {did @bid_currency = null_}
exit {did @inv_price = null_}
exit {did @last_update = null_}
exit {did @owner = null_}
exit {did @partner = null_}
at @owner = null_
at @partner = null_
at @bid_currency = null_
at @ask_currency = null_
at @inv_price = null_
at @last_update = null_
effects @owner = null_ ;; @partner = null_ ;; @bid_currency = null_ ;; @ask_currency = null_ ;; @inv_price = null_ ;; @last_update = null_
fn js::offer::_methods
each method("deposit", "public")
each method("cancel", "public")
each method("withdraw", "public")
each method("recover", "public")
each method("set_price", "public")
each method("trade", "payable public")
each method("accept", "payable public")
never throw …
exit {did method("deposit", "public")}
exit {did method("cancel", "public")}
exit {did method("withdraw", "public")}
exit {did method("recover", "public")}
exit {did method("set_price", "public")}
exit {did method("trade", "payable public")}
exit {did method("accept", "payable public")}
only method(…, "…public…") ;; method("deposit", "public") ;; method("cancel", "public") ;; method("withdraw", "public") ;; method("recover", "public") ;; method("set_price", "public") ;; method("trade", "payable public") ;; method("accept", "payable public")
never method(…, "…static…")
fn js::nft_offer::init
each @owner = bech32($0)
each @nft_contract = bech32($1)
each @ask_currency = bech32($2)
each @price = uint($3)
each @partner = bech32($4) ;; {uint($3)} ;; !{bech32($1) == bech32($2)} ;; {$4}
each @last_update = @ctx.height ;; {uint($3)} ;; !{bech32($1) == bech32($2)}
raise !{uint($3)}
raise {uint($3)} ;; {bech32($1) == bech32($2)}
exit !{bech32($1) == bech32($2)}
exit {did @ask_currency = bech32($2)}
exit {did @last_update = @ctx.height}
exit {did @nft_contract = bech32($1)}
exit {did @owner = bech32($0)}
exit {did @price = uint($3)}
exit {uint($3)}
exit !{$4} | {did @partner = bech32($4)}
at @owner = bech32($0)
at @nft_contract = bech32($1)
at @ask_currency = bech32($2)
at @price = uint($3)
at @partner = bech32($4) ;; {$4}
at @last_update = @ctx.height
effects @owner = bech32($0) ;; @nft_contract = bech32($1) ;; @ask_currency = bech32($2) ;; @price = uint($3) ;; @partner = bech32($4) ;; @last_update = @ctx.height
fn js::nft_offer::deposit
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
effects none
fn js::nft_offer::cancel
each send(@owner, balance(@nft_contract), @nft_contract, "mmx_offer_cancel")
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit {did send(@owner, balance(@nft_contract), @nft_contract, "mmx_offer_cancel")}
at send(@owner, balance(@nft_contract), @nft_contract, "mmx_offer_cancel")
effects send(@owner, balance(@nft_contract), @nft_contract, "mmx_offer_cancel")
fn js::nft_offer::recover
each send(@owner, uint($0), bech32($1), "mmx_offer_recover")
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit {did send(@owner, uint($0), bech32($1), "mmx_offer_recover")}
at send(@owner, uint($0), bech32($1), "mmx_offer_recover")
effects send(@owner, uint($0), bech32($1), "mmx_offer_recover")
fn js::nft_offer::set_price
each @price = uint($0) ;; !{@ctx.height < (@last_update + 1080)} ;; {uint($0)} ;; !{@price == uint($0)}
each @last_update = @ctx.height ;; !{@ctx.height < (@last_update + 1080)} ;; {uint($0)} ;; !{@price == uint($0)}
raise !{@ctx.user == @owner}
raise {@ctx.height < (@last_update + 1080)}
raise !{@ctx.height < (@last_update + 1080)} ;; !{uint($0)}
exit !{@ctx.height < (@last_update + 1080)}
exit {@ctx.user == @owner}
exit {uint($0)}
exit {@price == uint($0)} | {did @last_update = @ctx.height}
exit {@price == uint($0)} | {did @price = uint($0)}
at @price = uint($0) ;; !{@price == uint($0)}
at @last_update = @ctx.height ;; !{@price == uint($0)}
effects @price = uint($0) ;; @last_update = @ctx.height
fn js::nft_offer::accept
each send(@owner, @price, @ask_currency, "mmx_offer_proceeds") ;; {@price == uint($1)} ;; {balance(@nft_contract)} ;; {@ask_currency == @ctx.deposit.currency} ;; {@ctx.deposit.amount == @price}
each send(bech32($0), 1, @nft_contract, "mmx_offer_accept") ;; {@price == uint($1)} ;; {balance(@nft_contract)} ;; {@ask_currency == @ctx.deposit.currency} ;; {@ctx.deposit.amount == @price}
raise {@partner} ;; !{@ctx.user == @partner}
raise !{@price == uint($1)}
raise {@price == uint($1)} ;; !{balance(@nft_contract)}
raise {@price == uint($1)} ;; {balance(@nft_contract)} ;; !{@ask_currency == @ctx.deposit.currency}
raise {@price == uint($1)} ;; {balance(@nft_contract)} ;; {@ask_currency == @ctx.deposit.currency} ;; !{@ctx.deposit.amount == @price}
exit {@ask_currency == @ctx.deposit.currency}
exit {@ctx.deposit.amount == @price}
exit {@price == uint($1)}
exit {balance(@nft_contract)}
exit {did send(@owner, @price, @ask_currency, "mmx_offer_proceeds")}
exit {did send(bech32($0), 1, @nft_contract, "mmx_offer_accept")}
exit !{@partner} | {@ctx.user == @partner}
at send(@owner, @price, @ask_currency, "mmx_offer_proceeds")
at send(bech32($0), 1, @nft_contract, "mmx_offer_accept")
effects send(@owner, @price, @ask_currency, "mmx_offer_proceeds") ;; send(bech32($0), 1, @nft_contract, "mmx_offer_accept")
fn js::nft_offer::_init_state
each @owner = null_
each @partner = null_
each @nft_contract = null_
each @ask_currency = null_
each @price = null_
each @last_update = null_
never throw …
exit {did @ask_currency = null_}
exit {did @last_update = null_}
exit {did @nft_contract = null_}
exit {did @owner = null_}
exit {did @partner = null_}
exit {did @price = null_}
at @owner = null_
at @partner = null_
at @nft_contract = null_
at @ask_currency = null_
at @price = null_
at @last_update = null_
effects @owner = null_ ;; @partner = null_ ;; @nft_contract = null_ ;; @ask_currency = null_ ;; @price = null_ ;; @last_update = null_
fn js::nft_offer::_methods
each method("deposit", "public")
each method("cancel", "public")
each method("recover", "public")
each method("set_price", "public")
each method("accept", "payable public")
never throw …
exit {did method("deposit", "public")}
exit {did method("cancel", "public")}
exit {did method("recover", "public")}
exit {did method("set_price", "public")}
exit {did method("accept", "payable public")}
only method(…, "…public…") ;; method("deposit", "public") ;; method("cancel", "public") ;; method("recover", "public") ;; method("set_price", "public") ;; method("accept", "payable public")
never method(…, "…static…")
