tus src/contract/token.js src/contract/nft.js src/contract/template.js src/contract/fixed_price_token.js src/contract/fixed_price_liquid_token.js
fn js::token::init
each @owner = bech32($0)
never throw …
exit {did @owner = bech32($0)}
at @owner = bech32($0)
effects @owner = bech32($0)
fn js::token::mint_to
each mint(bech32($0), uint($1), ite({$2 == null_}, "mmx_token_mint", ite({$2}, $2, null_)))
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit {did mint(bech32($0), uint($1), ite({$2 == null_}, "mmx_token_mint", ite({$2}, $2, null_)))}
at mint(bech32($0), uint($1), ite({$2 == null_}, "mmx_token_mint", ite({$2}, $2, null_)))
effects mint(bech32($0), uint($1), ite({$2 == null_}, "mmx_token_mint", ite({$2}, $2, null_)))
fn js::token::transfer
each @owner = bech32($0)
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit {did @owner = bech32($0)}
at @owner = bech32($0)
effects @owner = bech32($0)
fn js::token::recover
each send(@owner, uint($0), bech32($1), "mmx_token_recover")
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit {did send(@owner, uint($0), bech32($1), "mmx_token_recover")}
at send(@owner, uint($0), bech32($1), "mmx_token_recover")
effects send(@owner, uint($0), bech32($1), "mmx_token_recover")
fn js::token::_init_state
each @owner = null_
never throw …
exit {did @owner = null_}
at @owner = null_
effects @owner = null_
fn js::token::_methods
each method("mint_to", "public")
each method("transfer", "public")
each method("recover", "public")
never throw …
exit {did method("mint_to", "public")}
exit {did method("transfer", "public")}
exit {did method("recover", "public")}
only method(…, "…public…") ;; method("mint_to", "public") ;; method("transfer", "public") ;; method("recover", "public")
never method(…, "…static…")
fn js::nft::init
each @creator = bech32($0) ;; !{read("decimals")}
raise {read("decimals")}
exit !{read("decimals")}
exit {did @creator = bech32($0)}
at @creator = bech32($0)
effects @creator = bech32($0)
fn js::nft::init_n
each @serial = uint($1) ;; !{read("decimals")}
each @creator = sha256(binary_hex($0)) ;; !{read("decimals")}
each rcall("template", "add", uint($1), binary_hex($0), binary_hex($2)) ;; !{read("decimals")}
raise {read("decimals")}
exit !{read("decimals")}
exit {did @creator = sha256(binary_hex($0))}
exit {did @serial = uint($1)}
exit {did rcall("template", "add", uint($1), binary_hex($0), binary_hex($2))}
at @serial = uint($1)
at @creator = sha256(binary_hex($0))
at rcall("template", "add", uint($1), binary_hex($0), binary_hex($2))
effects @serial = uint($1) ;; @creator = sha256(binary_hex($0)) ;; rcall("template", "add", uint($1), binary_hex($0), binary_hex($2))
fn js::nft::mint_to
each @mint_height = @ctx.height ;; {@creator == @ctx.user} ;; {@mint_height == null_}
each mint(bech32($0), 1, ite({$1 == null_}, "mmx_nft_mint", ite({$1}, $1, null_))) ;; {@creator == @ctx.user} ;; {@mint_height == null_}
raise !{@creator == @ctx.user}
raise {@creator == @ctx.user} ;; !{@mint_height == null_}
exit {@creator == @ctx.user}
exit {@mint_height == null_}
exit {did @mint_height = @ctx.height}
exit {did mint(bech32($0), 1, ite({$1 == null_}, "mmx_nft_mint", ite({$1}, $1, null_)))}
at @mint_height = @ctx.height
at mint(bech32($0), 1, ite({$1 == null_}, "mmx_nft_mint", ite({$1}, $1, null_)))
effects @mint_height = @ctx.height ;; mint(bech32($0), 1, ite({$1 == null_}, "mmx_nft_mint", ite({$1}, $1, null_)))
fn js::nft::get_creator
never throw …
exit {ret = @creator}
effects none
fn js::nft::is_minted
never throw …
true !{@mint_height == null_}
false {@mint_height == null_}
effects none
fn js::nft::get_mint_height
never throw …
exit {ret = @mint_height}
effects none
fn js::nft::_init_state
each @serial = null_
each @creator = null_
each @mint_height = null_
never throw …
exit {did @creator = null_}
exit {did @mint_height = null_}
exit {did @serial = null_}
at @serial = null_
at @creator = null_
at @mint_height = null_
effects @serial = null_ ;; @creator = null_ ;; @mint_height = null_
fn js::nft::_methods
each method("init_n", "static")
each method("mint_to", "public")
each method("get_creator", "const public")
each method("is_minted", "const public")
each method("get_mint_height", "const public")
never throw …
exit {did method("init_n", "static")}
exit {did method("mint_to", "public")}
exit {did method("get_creator", "const public")}
exit {did method("is_minted", "const public")}
exit {did method("get_mint_height", "const public")}
only method(…, "…public…") ;; method("mint_to", "public") ;; method("get_creator", "const public") ;; method("is_minted", "const public") ;; method("get_mint_height", "const public")
only method(…, "…static…") ;; method("init_n", "static")
fn js::template_::init
each @creator = bech32($0)
never throw …
exit {did @creator = bech32($0)}
at @creator = bech32($0)
effects @creator = bech32($0)
fn js::template_::add
each at(@nfts, $0) = @ctx.user ;; {@ctx.user} ;; {is_uint($0)} ;; {$0} ;; {at(@nfts, $0) == null_} ;; {@creator == sha256($1)} ;; {ecdsa_verify(sha256(concat(string_bech32(@ctx.address), "/", string($0))), $1, $2)}
raise !{@ctx.user}
raise {@ctx.user} ;; !{is_uint($0)}
raise {@ctx.user} ;; {is_uint($0)} ;; !{$0}
raise {@ctx.user} ;; {is_uint($0)} ;; {$0} ;; !{at(@nfts, $0) == null_}
raise {@ctx.user} ;; {is_uint($0)} ;; {$0} ;; {at(@nfts, $0) == null_} ;; !{@creator == sha256($1)}
raise {@ctx.user} ;; {is_uint($0)} ;; {$0} ;; {at(@nfts, $0) == null_} ;; {@creator == sha256($1)} ;; !{ecdsa_verify(sha256(concat(string_bech32(@ctx.address), "/", string($0))), $1, $2)}
exit {$0}
exit {@creator == sha256($1)}
exit {@ctx.user}
exit {at(@nfts, $0) == null_}
exit {did at(@nfts, $0) = @ctx.user}
exit {ecdsa_verify(sha256(concat(string_bech32(@ctx.address), "/", string($0))), $1, $2)}
exit {is_uint($0)}
at at(@nfts, $0) = @ctx.user
effects at(@nfts, $0) = @ctx.user
fn js::template_::_init_state
each @creator = null_
each @nfts = obj()
never throw …
exit {did @creator = null_}
exit {did @nfts = obj()}
at @creator = null_
at @nfts = obj()
effects @creator = null_ ;; @nfts = obj()
fn js::template_::_methods
each method("add", "public")
never throw …
exit {did method("add", "public")}
only method(…, "…public…") ;; method("add", "public")
never method(…, "…static…")
fn js::fixed_price_token::init
each @owner = bech32($0)
each @price = uint($1)
each @currency = bech32($2)
never throw …
exit {did @currency = bech32($2)}
exit {did @owner = bech32($0)}
exit {did @price = uint($1)}
at @owner = bech32($0)
at @price = uint($1)
at @currency = bech32($2)
effects @owner = bech32($0) ;; @price = uint($1) ;; @currency = bech32($2)
fn js::fixed_price_token::buy
each mint(@ctx.user, ((@ctx.deposit.amount * @price) >> 64)) ;; {@ctx.deposit.currency == @currency}
raise !{@ctx.deposit.currency == @currency}
exit {@ctx.deposit.currency == @currency}
exit {did mint(@ctx.user, ((@ctx.deposit.amount * @price) >> 64))}
at mint(@ctx.user, ((@ctx.deposit.amount * @price) >> 64))
effects mint(@ctx.user, ((@ctx.deposit.amount * @price) >> 64))
fn js::fixed_price_token::withdraw
each send(@owner, ite({$0}, uint($0), balance(@currency)), @currency)
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit {did send(@owner, ite({$0}, uint($0), balance(@currency)), @currency)}
at send(@owner, ite({$0}, uint($0), balance(@currency)), @currency)
effects send(@owner, ite({$0}, uint($0), balance(@currency)), @currency)
fn js::fixed_price_token::recover
each send(@owner, uint($0), bech32($1), "mmx_token_recover")
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit {did send(@owner, uint($0), bech32($1), "mmx_token_recover")}
at send(@owner, uint($0), bech32($1), "mmx_token_recover")
effects send(@owner, uint($0), bech32($1), "mmx_token_recover")
fn js::fixed_price_token::transfer
each @owner = bech32($0)
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit {did @owner = bech32($0)}
at @owner = bech32($0)
effects @owner = bech32($0)
fn js::fixed_price_token::_init_state
each @owner = null_
each @price = null_
each @currency = null_
never throw …
exit {did @currency = null_}
exit {did @owner = null_}
exit {did @price = null_}
at @owner = null_
at @price = null_
at @currency = null_
effects @owner = null_ ;; @price = null_ ;; @currency = null_
fn js::fixed_price_token::_methods
each method("buy", "payable public")
each method("withdraw", "public")
each method("recover", "public")
each method("transfer", "public")
never throw …
exit {did method("buy", "payable public")}
exit {did method("withdraw", "public")}
exit {did method("recover", "public")}
exit {did method("transfer", "public")}
only method(…, "…public…") ;; method("buy", "payable public") ;; method("withdraw", "public") ;; method("recover", "public") ;; method("transfer", "public")
never method(…, "…static…")
fn js::fixed_price_liquid_token::init
each @owner = bech32($0)
each @price = uint($1)
each @ratio = uint($3)
each @currency = bech32($2)
raise !{uint($1)}
raise {uint($1)} ;; {999 < uint($3)}
exit !{999 < uint($3)}
exit {did @currency = bech32($2)}
exit {did @owner = bech32($0)}
exit {did @price = uint($1)}
exit {did @ratio = uint($3)}
exit {uint($1)}
at @owner = bech32($0)
at @price = uint($1)
at @ratio = uint($3)
at @currency = bech32($2)
effects @owner = bech32($0) ;; @price = uint($1) ;; @ratio = uint($3) ;; @currency = bech32($2)
fn js::fixed_price_liquid_token::buy
each @owner_balance = (((@ctx.deposit.amount * @ratio) / 1000) + @owner_balance) ;; {@ctx.deposit.currency == @currency}
each mint(@ctx.user, ((@ctx.deposit.amount * @price) >> 64)) ;; {@ctx.deposit.currency == @currency}
raise !{@ctx.deposit.currency == @currency}
exit {@ctx.deposit.currency == @currency}
exit {did @owner_balance = (((@ctx.deposit.amount * @ratio) / 1000) + @owner_balance)}
exit {did mint(@ctx.user, ((@ctx.deposit.amount * @price) >> 64))}
at @owner_balance = (((@ctx.deposit.amount * @ratio) / 1000) + @owner_balance)
at mint(@ctx.user, ((@ctx.deposit.amount * @price) >> 64))
effects @owner_balance = (((@ctx.deposit.amount * @ratio) / 1000) + @owner_balance) ;; mint(@ctx.user, ((@ctx.deposit.amount * @price) >> 64))
fn js::fixed_price_liquid_token::sell
each send(@ctx.user, ((((18446744073709551616 * @ctx.deposit.amount) / @price) * (-@ratio + 1000)) / 1000), @currency) ;; {@ctx.address == @ctx.deposit.currency}
each send(bech32(), @ctx.deposit.amount, @ctx.address) ;; {@ctx.address == @ctx.deposit.currency}
raise !{@ctx.address == @ctx.deposit.currency}
exit {@ctx.address == @ctx.deposit.currency}
exit {did send(@ctx.user, ((((18446744073709551616 * @ctx.deposit.amount) / @price) * (-@ratio + 1000)) / 1000), @currency)}
exit {did send(bech32(), @ctx.deposit.amount, @ctx.address)}
at send(@ctx.user, ((((18446744073709551616 * @ctx.deposit.amount) / @price) * (-@ratio + 1000)) / 1000), @currency)
at send(bech32(), @ctx.deposit.amount, @ctx.address)
effects send(@ctx.user, ((((18446744073709551616 * @ctx.deposit.amount) / @price) * (-@ratio + 1000)) / 1000), @currency) ;; send(bech32(), @ctx.deposit.amount, @ctx.address)
fn js::fixed_price_liquid_token::withdraw
each @owner_balance = (-ite({$0}, uint($0), @owner_balance) + @owner_balance) ;; !{$0} | !{@owner_balance < uint($0)}
each send(@owner, ite({$0}, uint($0), @owner_balance), @currency) ;; !{$0} | !{@owner_balance < uint($0)}
raise !{@ctx.user == @owner}
raise {$0} ;; {@owner_balance < uint($0)}
exit {@ctx.user == @owner}
exit {did @owner_balance = (-ite({$0}, uint($0), @owner_balance) + @owner_balance)}
exit {did send(@owner, ite({$0}, uint($0), @owner_balance), @currency)}
exit !{$0} | !{@owner_balance < uint($0)}
at @owner_balance = (-ite({$0}, uint($0), @owner_balance) + @owner_balance)
at send(@owner, ite({$0}, uint($0), @owner_balance), @currency)
effects @owner_balance = (-ite({$0}, uint($0), @owner_balance) + @owner_balance) ;; send(@owner, ite({$0}, uint($0), @owner_balance), @currency)
fn js::fixed_price_liquid_token::recover
each send(@owner, uint($0), bech32($1), "mmx_token_recover")
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit {did send(@owner, uint($0), bech32($1), "mmx_token_recover")}
at send(@owner, uint($0), bech32($1), "mmx_token_recover")
effects send(@owner, uint($0), bech32($1), "mmx_token_recover")
fn js::fixed_price_liquid_token::transfer
each @owner = bech32($0)
raise !{@ctx.user == @owner}
exit {@ctx.user == @owner}
exit {did @owner = bech32($0)}
at @owner = bech32($0)
effects @owner = bech32($0)
fn js::fixed_price_liquid_token::_init_state
each @owner = null_
each @price = null_
each @ratio = null_
each @currency = null_
each @owner_balance = 0
never throw …
exit {did @currency = null_}
exit {did @owner = null_}
exit {did @owner_balance = 0}
exit {did @price = null_}
exit {did @ratio = null_}
at @owner = null_
at @price = null_
at @ratio = null_
at @currency = null_
at @owner_balance = 0
effects @owner = null_ ;; @price = null_ ;; @ratio = null_ ;; @currency = null_ ;; @owner_balance = 0
fn js::fixed_price_liquid_token::_methods
each method("buy", "payable public")
each method("sell", "payable public")
each method("withdraw", "public")
each method("recover", "public")
each method("transfer", "public")
never throw …
exit {did method("buy", "payable public")}
exit {did method("sell", "payable public")}
exit {did method("withdraw", "public")}
exit {did method("recover", "public")}
exit {did method("transfer", "public")}
only method(…, "…public…") ;; method("buy", "payable public") ;; method("sell", "payable public") ;; method("withdraw", "public") ;; method("recover", "public") ;; method("transfer", "public")
never method(…, "…static…")
