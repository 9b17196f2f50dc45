tus src/contract/poker.js src/contract/crypto_horse_race.js
fn js::poker::init
each @currency = bech32($0)
each @blind_bet = uint($1)
each @bet_limit = (uint($1) * uint($2))
each @max_players = uint($3)
each @timeout_interval = uint($4)
raise !{1 < uint($3)}
raise {1 < uint($3)} ;; !{5 < uint($4)}
exit {1 < uint($3)}
exit {5 < uint($4)}
exit {did @bet_limit = (uint($1) * uint($2))}
exit {did @blind_bet = uint($1)}
exit {did @currency = bech32($0)}
exit {did @max_players = uint($3)}
exit {did @timeout_interval = uint($4)}
at @currency = bech32($0)
at @blind_bet = uint($1)
at @bet_limit = (uint($1) * uint($2))
at @max_players = uint($3)
at @timeout_interval = uint($4)
effects @currency = bech32($0) ;; @blind_bet = uint($1) ;; @bet_limit = (uint($1) * uint($2)) ;; @max_players = uint($3) ;; @timeout_interval = uint($4)
fn js::poker::join
each %js::object.name = $0 ;; !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {size(@player_list) < @max_players} ;; {@ctx.user} ;; {@ctx.deposit.currency == @currency} ;; {@blind_bet == @ctx.deposit.amount} ;; {32 == size(binary_hex($1))} ;; {32 == size(binary_hex($2))} ;; {is_string($0)} ;; {1 < size($0)} ;; !{24 < size($0)} ;; !{at(@player_map, @ctx.user)}
each %js::object.address = @ctx.user ;; !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {size(@player_list) < @max_players} ;; {@ctx.user} ;; {@ctx.deposit.currency == @currency} ;; {@blind_bet == @ctx.deposit.amount} ;; {32 == size(binary_hex($1))} ;; {32 == size(binary_hex($2))} ;; {is_string($0)} ;; {1 < size($0)} ;; !{24 < size($0)} ;; !{at(@player_map, @ctx.user)}
each %js::object.step = 0 ;; !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {size(@player_list) < @max_players} ;; {@ctx.user} ;; {@ctx.deposit.currency == @currency} ;; {@blind_bet == @ctx.deposit.amount} ;; {32 == size(binary_hex($1))} ;; {32 == size(binary_hex($2))} ;; {is_string($0)} ;; {1 < size($0)} ;; !{24 < size($0)} ;; !{at(@player_map, @ctx.user)}
each %js::object.bet = @blind_bet ;; !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {size(@player_list) < @max_players} ;; {@ctx.user} ;; {@ctx.deposit.currency == @currency} ;; {@blind_bet == @ctx.deposit.amount} ;; {32 == size(binary_hex($1))} ;; {32 == size(binary_hex($2))} ;; {is_string($0)} ;; {1 < size($0)} ;; !{24 < size($0)} ;; !{at(@player_map, @ctx.user)}
each %js::object.seed = arr() ;; !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {size(@player_list) < @max_players} ;; {@ctx.user} ;; {@ctx.deposit.currency == @currency} ;; {@blind_bet == @ctx.deposit.amount} ;; {32 == size(binary_hex($1))} ;; {32 == size(binary_hex($2))} ;; {is_string($0)} ;; {1 < size($0)} ;; !{24 < size($0)} ;; !{at(@player_map, @ctx.user)}
each %js::object.commit = binary_hex($1) ;; !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {size(@player_list) < @max_players} ;; {@ctx.user} ;; {@ctx.deposit.currency == @currency} ;; {@blind_bet == @ctx.deposit.amount} ;; {32 == size(binary_hex($1))} ;; {32 == size(binary_hex($2))} ;; {is_string($0)} ;; {1 < size($0)} ;; !{24 < size($0)} ;; !{at(@player_map, @ctx.user)}
each %js::object.private_commit = binary_hex($2) ;; !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {size(@player_list) < @max_players} ;; {@ctx.user} ;; {@ctx.deposit.currency == @currency} ;; {@blind_bet == @ctx.deposit.amount} ;; {32 == size(binary_hex($1))} ;; {32 == size(binary_hex($2))} ;; {is_string($0)} ;; {1 < size($0)} ;; !{24 < size($0)} ;; !{at(@player_map, @ctx.user)}
each @deadline = ((3 * @timeout_interval) + @ctx.height) ;; !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {size(@player_list) < @max_players} ;; {@ctx.user} ;; {@ctx.deposit.currency == @currency} ;; {@blind_bet == @ctx.deposit.amount} ;; {32 == size(binary_hex($1))} ;; {32 == size(binary_hex($2))} ;; {is_string($0)} ;; {1 < size($0)} ;; !{24 < size($0)} ;; !{at(@player_map, @ctx.user)} ;; {1 == size(@player_list)}
each at(@player_map, @ctx.user) = size(@player_list) ;; !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {size(@player_list) < @max_players} ;; {@ctx.user} ;; {@ctx.deposit.currency == @currency} ;; {@blind_bet == @ctx.deposit.amount} ;; {32 == size(binary_hex($1))} ;; {32 == size(binary_hex($2))} ;; {is_string($0)} ;; {1 < size($0)} ;; !{24 < size($0)} ;; !{at(@player_map, @ctx.user)}
each push(@player_list, %js::object) ;; !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {size(@player_list) < @max_players} ;; {@ctx.user} ;; {@ctx.deposit.currency == @currency} ;; {@blind_bet == @ctx.deposit.amount} ;; {32 == size(binary_hex($1))} ;; {32 == size(binary_hex($2))} ;; {is_string($0)} ;; {1 < size($0)} ;; !{24 < size($0)} ;; !{at(@player_map, @ctx.user)}
each @state = 1 ;; !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {size(@player_list) < @max_players} ;; {@ctx.user} ;; {@ctx.deposit.currency == @currency} ;; {@blind_bet == @ctx.deposit.amount} ;; {32 == size(binary_hex($1))} ;; {32 == size(binary_hex($2))} ;; {is_string($0)} ;; {1 < size($0)} ;; !{24 < size($0)} ;; !{at(@player_map, @ctx.user)} ;; {1 < size(@player_list)} ;; !{size(@player_list) < @max_players} | {@deadline} ;; !{@ctx.height < @deadline} | !{size(@player_list) < @max_players}
each @deadline = (@ctx.height + @timeout_interval) ;; !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {size(@player_list) < @max_players} ;; {@ctx.user} ;; {@ctx.deposit.currency == @currency} ;; {@blind_bet == @ctx.deposit.amount} ;; {32 == size(binary_hex($1))} ;; {32 == size(binary_hex($2))} ;; {is_string($0)} ;; {1 < size($0)} ;; !{24 < size($0)} ;; !{at(@player_map, @ctx.user)} ;; {1 < size(@player_list)} ;; !{size(@player_list) < @max_players} | {@deadline} ;; !{@ctx.height < @deadline} | !{size(@player_list) < @max_players}
raise {@state}
raise !{@state} ;; {@deadline} ;; !{@ctx.height < @deadline}
raise !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; !{size(@player_list) < @max_players}
raise !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {size(@player_list) < @max_players} ;; !{@ctx.user}
raise !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {size(@player_list) < @max_players} ;; {@ctx.user} ;; !{@ctx.deposit.currency == @currency}
raise !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {size(@player_list) < @max_players} ;; {@ctx.user} ;; {@ctx.deposit.currency == @currency} ;; !{@blind_bet == @ctx.deposit.amount}
raise !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {size(@player_list) < @max_players} ;; {@ctx.user} ;; {@ctx.deposit.currency == @currency} ;; {@blind_bet == @ctx.deposit.amount} ;; !{32 == size(binary_hex($1))}
raise !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {size(@player_list) < @max_players} ;; {@ctx.user} ;; {@ctx.deposit.currency == @currency} ;; {@blind_bet == @ctx.deposit.amount} ;; {32 == size(binary_hex($1))} ;; !{32 == size(binary_hex($2))}
raise !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {size(@player_list) < @max_players} ;; {@ctx.user} ;; {@ctx.deposit.currency == @currency} ;; {@blind_bet == @ctx.deposit.amount} ;; {32 == size(binary_hex($1))} ;; {32 == size(binary_hex($2))} ;; !{1 < size($0)} | !{is_string($0)} | {24 < size($0)}
raise !{@state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {size(@player_list) < @max_players} ;; {@ctx.user} ;; {@ctx.deposit.currency == @currency} ;; {@blind_bet == @ctx.deposit.amount} ;; {32 == size(binary_hex($1))} ;; {32 == size(binary_hex($2))} ;; {is_string($0)} ;; {1 < size($0)} ;; !{24 < size($0)} ;; {at(@player_map, @ctx.user)}
exit !{24 < size($0)}
exit !{@state}
exit !{at(@player_map, @ctx.user)}
exit {1 < size($0)}
exit {32 == size(binary_hex($1))}
exit {32 == size(binary_hex($2))}
exit {@blind_bet == @ctx.deposit.amount}
exit {@ctx.deposit.currency == @currency}
exit {@ctx.user}
exit {did %js::object.address = @ctx.user}
exit {did %js::object.bet = @blind_bet}
exit {did %js::object.commit = binary_hex($1)}
exit {did %js::object.name = $0}
exit {did %js::object.private_commit = binary_hex($2)}
exit {did %js::object.seed = arr()}
exit {did %js::object.step = 0}
exit {did at(@player_map, @ctx.user) = size(@player_list)}
exit {did push(@player_list, %js::object)}
exit {is_string($0)}
exit {size(@player_list) < @max_players}
exit !{1 == size(@player_list)} | {did @deadline = ((3 * @timeout_interval) + @ctx.height)}
exit !{@deadline} | {@ctx.height < @deadline}
at %js::object.name = $0
at %js::object.address = @ctx.user
at %js::object.step = 0
at %js::object.bet = @blind_bet
at %js::object.seed = arr()
at %js::object.commit = binary_hex($1)
at %js::object.private_commit = binary_hex($2)
at @deadline = ((3 * @timeout_interval) + @ctx.height) ;; {1 == size(@player_list)}
at at(@player_map, @ctx.user) = size(@player_list)
at push(@player_list, %js::object)
at @state = 1 ;; {1 < size(@player_list)} ;; !{size(@player_list) < @max_players} | {@deadline} ;; !{@ctx.height < @deadline} | !{size(@player_list) < @max_players}
at @deadline = (@ctx.height + @timeout_interval) ;; {1 < size(@player_list)} ;; !{size(@player_list) < @max_players} | {@deadline} ;; !{@ctx.height < @deadline} | !{size(@player_list) < @max_players}
effects @deadline = ((3 * @timeout_interval) + @ctx.height) ;; at(@player_map, @ctx.user) = size(@player_list) ;; push(@player_list, %js::object) ;; @state = 1 ;; @deadline = (@ctx.height + @timeout_interval)
only ctor:js::object(…) ;; ctor:js::object(obj())
fn js::poker::reveal
never concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
each @state = 1 ;; !{@state} ;; {1 < size(@player_list)} ;; !{size(@player_list) < @max_players} | {@deadline} ;; !{@ctx.height < @deadline} | !{size(@player_list) < @max_players}
each @deadline = (@ctx.height + @timeout_interval) ;; !{@state} ;; {1 < size(@player_list)} ;; !{size(@player_list) < @max_players} | {@deadline} ;; !{@ctx.height < @deadline} | !{size(@player_list) < @max_players}
each push(%js::object, elem(@player_list)) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; !{elem(@player_list).fold} ;; !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
each elem(%js::object).fold = true ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; {elem(%js::object).bet < @bet_amount} ;; !{@is_raise}
each @bet_amount = 0 ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount}
each @state = 1 ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; !{3 < @round}
each @state = 3 ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round}
each at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
each push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4))))) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
each @global_seed = at(%js::object, 0) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
each @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4)))) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
each @is_raise = false ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @sequence = (@sequence + 1) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @num_actions = 0 ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @deadline = (@ctx.height + @timeout_interval) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each at(@player_list, at(@player_map, @ctx.user)).commit = binary_hex($1) ;; {1 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {32 == size($0)} ;; {@round == size(at(@player_list, at(@player_map, @ctx.user)).seed)} ;; {at(@player_list, at(@player_map, @ctx.user)).commit == sha256($0)} ;; !{3 < @round} ;; {32 == size(binary_hex($1))}
each at(@player_list, at(@player_map, @ctx.user)).commit = null_ ;; {1 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {32 == size($0)} ;; {@round == size(at(@player_list, at(@player_map, @ctx.user)).seed)} ;; {at(@player_list, at(@player_map, @ctx.user)).commit == sha256($0)} ;; {3 < @round}
each push(at(@player_list, at(@player_map, @ctx.user)).seed, $0) ;; {1 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {32 == size($0)} ;; {@round == size(at(@player_list, at(@player_map, @ctx.user)).seed)} ;; {at(@player_list, at(@player_map, @ctx.user)).commit == sha256($0)}
each @num_reveals = (@num_reveals + 1) ;; {1 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {32 == size($0)} ;; {@round == size(at(@player_list, at(@player_map, @ctx.user)).seed)} ;; {at(@player_list, at(@player_map, @ctx.user)).commit == sha256($0)}
each @round = (@round + 1) ;; {1 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {32 == size($0)} ;; {@round == size(at(@player_list, at(@player_map, @ctx.user)).seed)} ;; {at(@player_list, at(@player_map, @ctx.user)).commit == sha256($0)} ;; {(@num_reveals + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_reveals + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @state = 2 ;; {1 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {32 == size($0)} ;; {@round == size(at(@player_list, at(@player_map, @ctx.user)).seed)} ;; {at(@player_list, at(@player_map, @ctx.user)).commit == sha256($0)} ;; {(@num_reveals + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_reveals + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @num_reveals = 0 ;; {1 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {32 == size($0)} ;; {@round == size(at(@player_list, at(@player_map, @ctx.user)).seed)} ;; {at(@player_list, at(@player_map, @ctx.user)).commit == sha256($0)} ;; {(@num_reveals + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_reveals + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @deadline = (@ctx.height + @timeout_interval) ;; {1 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {32 == size($0)} ;; {@round == size(at(@player_list, at(@player_map, @ctx.user)).seed)} ;; {at(@player_list, at(@player_map, @ctx.user)).commit == sha256($0)} ;; {(@num_reveals + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_reveals + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
never break(@player_list)
never break(%js::object)
never break(loop)
raise !{1 == @state}
raise {1 == @state} ;; {@deadline} ;; !{@ctx.height < @deadline}
raise {1 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; !{32 == size($0)}
raise {1 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {32 == size($0)} ;; {at(@player_map, @ctx.user) == null_}
raise {1 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {32 == size($0)} ;; !{at(@player_map, @ctx.user) == null_} ;; {at(@player_list, at(@player_map, @ctx.user)).fold} | {size(at(@player_list, at(@player_map, @ctx.user)).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
raise {1 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {32 == size($0)} ;; !{@round == size(at(@player_list, at(@player_map, @ctx.user)).seed)}
raise {1 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {32 == size($0)} ;; {@round == size(at(@player_list, at(@player_map, @ctx.user)).seed)} ;; !{at(@player_list, at(@player_map, @ctx.user)).commit == sha256($0)}
raise {1 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {32 == size($0)} ;; {@round == size(at(@player_list, at(@player_map, @ctx.user)).seed)} ;; {at(@player_list, at(@player_map, @ctx.user)).commit == sha256($0)} ;; !{3 < @round} ;; !{32 == size(binary_hex($1))}
value fold(0, (~ + 1))
exit !{2 == @state}
exit !{at(@player_list, at(@player_map, @ctx.user)).fold}
exit !{at(@player_map, @ctx.user) == null_}
exit !{size(at(@player_list, at(@player_map, @ctx.user)).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
exit {1 == @state}
exit {32 == size($0)}
exit {@round == size(at(@player_list, at(@player_map, @ctx.user)).seed)}
exit {at(@player_list, at(@player_map, @ctx.user)).commit == sha256($0)}
exit {did @num_reveals = (@num_reveals + 1)}
exit {did push(at(@player_list, at(@player_map, @ctx.user)).seed, $0)}
exit !{(@num_reveals + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {did @deadline = (@ctx.height + @timeout_interval)}
exit !{(@num_reveals + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {did @num_reveals = 0}
exit !{(@num_reveals + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {did @round = (@round + 1)}
exit !{(@num_reveals + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {did @state = 2}
exit !{3 < @round} | {did at(@player_list, at(@player_map, @ctx.user)).commit = null_}
exit !{@deadline} | {@ctx.height < @deadline}
exit {3 < @round} | {32 == size(binary_hex($1))}
exit {3 < @round} | {did at(@player_list, at(@player_map, @ctx.user)).commit = binary_hex($1)}
exit !{1 < size(@player_list)} | {@state} | {did @deadline = (@ctx.height + @timeout_interval)} | {size(@player_list) < @max_players}
exit !{1 < size(@player_list)} | {@state} | {did @state = 1} | {size(@player_list) < @max_players}
at @state = 1
at @deadline = (@ctx.height + @timeout_interval)
at push(%js::object, elem(@player_list)) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; !{elem(@player_list).fold} ;; !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
at elem(%js::object).fold = true ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; {elem(%js::object).bet < @bet_amount} ;; !{@is_raise}
at @bet_amount = 0 ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount}
at @state = 3 ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round}
at at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
at push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4))))) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
at @global_seed = at(%js::object, 0) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
at @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4)))) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
at @is_raise = false ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @sequence = (@sequence + 1) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @num_actions = 0 ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at at(@player_list, at(@player_map, @ctx.user)).commit = binary_hex($1) ;; !{3 < @round} ;; {32 == size(binary_hex($1))}
at at(@player_list, at(@player_map, @ctx.user)).commit = null_ ;; {3 < @round}
at push(at(@player_list, at(@player_map, @ctx.user)).seed, $0)
at @num_reveals = (@num_reveals + 1)
at @round = (@round + 1) ;; {(@num_reveals + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_reveals + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @state = 2 ;; {(@num_reveals + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_reveals + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @num_reveals = 0 ;; {(@num_reveals + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_reveals + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
effects @state = 1 ;; @deadline = (@ctx.height + @timeout_interval) ;; elem(%js::object).fold = true ;; @bet_amount = 0 ;; @state = 3 ;; @global_seed = at(%js::object, 0) ;; @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4)))) ;; @is_raise = false ;; @sequence = (@sequence + 1) ;; @num_actions = 0 ;; at(@player_list, at(@player_map, @ctx.user)).commit = binary_hex($1) ;; at(@player_list, at(@player_map, @ctx.user)).commit = null_ ;; push(at(@player_list, at(@player_map, @ctx.user)).seed, $0) ;; @num_reveals = (@num_reveals + 1) ;; @round = (@round + 1) ;; @state = 2 ;; @num_reveals = 0
only ctor:js::object(…) ;; ctor:js::object(arr()) ;; ctor:js::object(arr("", "", "", "")) ;; ctor:js::object(arr("2", "3", "4", "5", "6", "7", "8", "9", "T", "J", "Q", "K", "A")) ;; ctor:js::object(arr("H", "D", "C", "S"))
fn js::poker::bet
never concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
at at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
each @round = (@round + 1) ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @state = 2 ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @num_reveals = 0 ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @deadline = (@ctx.height + @timeout_interval) ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each at(@player_list, at(@player_map, @ctx.user)).bet = (@ctx.deposit.amount + at(@player_list, at(@player_map, @ctx.user)).bet) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence}
each @is_raise = true ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet} ;; {@bet_amount < at(@player_list, at(@player_map, @ctx.user)).bet}
each @bet_amount = at(@player_list, at(@player_map, @ctx.user)).bet ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet} ;; {@bet_amount < at(@player_list, at(@player_map, @ctx.user)).bet}
each at(@player_list, at(@player_map, @ctx.user)).step = @sequence ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet}
each @num_actions = (@num_actions + 1) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet}
each push(%js::object, elem(@player_list)) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; !{elem(@player_list).fold} ;; !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
each elem(%js::object).fold = true ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; {elem(%js::object).bet < @bet_amount} ;; !{@is_raise}
each @bet_amount = 0 ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount}
each @state = 1 ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; !{3 < @round}
each @state = 3 ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round}
each at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
each push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4))))) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
each @global_seed = at(%js::object, 0) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
each @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4)))) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
each @is_raise = false ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @sequence = (@sequence + 1) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @num_actions = 0 ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @deadline = (@ctx.height + @timeout_interval) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
never break(@player_list)
never break(%js::object)
never break(loop)
raise !{2 == @state}
raise {2 == @state} ;; {@deadline} ;; !{@ctx.height < @deadline}
raise {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; !{@ctx.deposit.currency == @currency}
raise {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_map, @ctx.user) == null_}
raise {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; !{at(@player_map, @ctx.user) == null_} ;; {at(@player_list, at(@player_map, @ctx.user)).fold} | {size(at(@player_list, at(@player_map, @ctx.user)).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
raise {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; !{at(@player_list, at(@player_map, @ctx.user)).step < @sequence}
raise {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {@ctx.deposit.currency == @currency} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet}
value fold(0, (~ + 1))
exit !{1 == @state}
exit !{@bet_limit < at(@player_list, at(@player_map, @ctx.user)).bet}
exit !{at(@player_list, at(@player_map, @ctx.user)).fold}
exit !{at(@player_map, @ctx.user) == null_}
exit !{size(at(@player_list, at(@player_map, @ctx.user)).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
exit {2 == @state}
exit {@ctx.deposit.currency == @currency}
exit {at(@player_list, at(@player_map, @ctx.user)).step < @sequence}
exit {did @num_actions = (@num_actions + 1)}
exit {did at(@player_list, at(@player_map, @ctx.user)).bet = (@ctx.deposit.amount + at(@player_list, at(@player_map, @ctx.user)).bet)}
exit {did at(@player_list, at(@player_map, @ctx.user)).step = @sequence}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {did @deadline = (@ctx.height + @timeout_interval)}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {did @is_raise = false}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {did @num_actions = 0}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {did @sequence = (@sequence + 1)}
exit !{@bet_amount < at(@player_list, at(@player_map, @ctx.user)).bet} | {did @bet_amount = at(@player_list, at(@player_map, @ctx.user)).bet}
exit !{@bet_amount < at(@player_list, at(@player_map, @ctx.user)).bet} | {did @is_raise = true}
exit !{@deadline} | {@ctx.height < @deadline}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@bet_amount} | {did @bet_amount = 0}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@is_raise} | {did @bet_amount = 0}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {did @bet_amount = 0} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@bet_amount} | {did @state = 3}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@is_raise} | {did @state = 3}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {did @state = 3} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {3 < @round} | {@bet_amount} | {did @state = 1}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {3 < @round} | {@is_raise} | {did @state = 1}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {3 < @round} | {did @state = 1} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@bet_amount} | {@board} | {did @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4))))}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@bet_amount} | {@board} | {did @global_seed = at(%js::object, 0)}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@bet_amount} | {@board} | {did at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1))))}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@bet_amount} | {@board} | {did push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4)))))}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {@is_raise} | {did @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4))))}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {@is_raise} | {did @global_seed = at(%js::object, 0)}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {@is_raise} | {did at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1))))}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {@is_raise} | {did push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4)))))}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {did @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4))))} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {did @global_seed = at(%js::object, 0)} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {did at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1))))} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {did push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4)))))} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{@bet_amount} | !{elem(%js::object).bet < @bet_amount} | {@is_raise} | {did elem(%js::object).fold = true}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{@bet_amount} | {did push(%js::object, elem(@player_list))} | {elem(@player_list).fold} | {size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
at @round = (@round + 1) ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @state = 2 ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @num_reveals = 0 ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @deadline = (@ctx.height + @timeout_interval)
at at(@player_list, at(@player_map, @ctx.user)).bet = (@ctx.deposit.amount + at(@player_list, at(@player_map, @ctx.user)).bet)
at @is_raise = true ;; {@bet_amount < at(@player_list, at(@player_map, @ctx.user)).bet}
at @bet_amount = at(@player_list, at(@player_map, @ctx.user)).bet ;; {@bet_amount < at(@player_list, at(@player_map, @ctx.user)).bet}
at at(@player_list, at(@player_map, @ctx.user)).step = @sequence
at @num_actions = (@num_actions + 1)
at push(%js::object, elem(@player_list)) ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; !{elem(@player_list).fold} ;; !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
at elem(%js::object).fold = true ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; {elem(%js::object).bet < @bet_amount} ;; !{@is_raise}
at @bet_amount = 0 ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount}
at @state = 1 ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; !{3 < @round}
at @state = 3 ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round}
at at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
at push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4))))) ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
at @global_seed = at(%js::object, 0) ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
at @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4)))) ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
at @is_raise = false ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @sequence = (@sequence + 1) ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @num_actions = 0 ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
effects @round = (@round + 1) ;; @state = 2 ;; @num_reveals = 0 ;; @deadline = (@ctx.height + @timeout_interval) ;; at(@player_list, at(@player_map, @ctx.user)).bet = (@ctx.deposit.amount + at(@player_list, at(@player_map, @ctx.user)).bet) ;; @is_raise = true ;; @bet_amount = at(@player_list, at(@player_map, @ctx.user)).bet ;; at(@player_list, at(@player_map, @ctx.user)).step = @sequence ;; @num_actions = (@num_actions + 1) ;; elem(%js::object).fold = true ;; @bet_amount = 0 ;; @state = 1 ;; @state = 3 ;; @global_seed = at(%js::object, 0) ;; @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4)))) ;; @is_raise = false ;; @sequence = (@sequence + 1) ;; @num_actions = 0
only ctor:js::object(…) ;; ctor:js::object(arr()) ;; ctor:js::object(arr("", "", "", "")) ;; ctor:js::object(arr("2", "3", "4", "5", "6", "7", "8", "9", "T", "J", "Q", "K", "A")) ;; ctor:js::object(arr("H", "D", "C", "S"))
fn js::poker::check
never concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
at at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
each @round = (@round + 1) ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @state = 2 ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @num_reveals = 0 ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @deadline = (@ctx.height + @timeout_interval) ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each at(@player_list, at(@player_map, @ctx.user)).fold = true ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {@is_raise} ;; {$0}
each at(@player_list, at(@player_map, @ctx.user)).step = @sequence ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence}
each @num_actions = (@num_actions + 1) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence}
each push(%js::object, elem(@player_list)) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; !{elem(@player_list).fold} ;; !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
each elem(%js::object).fold = true ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; {elem(%js::object).bet < @bet_amount} ;; !{@is_raise}
each @bet_amount = 0 ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount}
each @state = 1 ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; !{3 < @round}
each @state = 3 ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round}
each at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
each push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4))))) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
each @global_seed = at(%js::object, 0) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
each @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4)))) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
each @is_raise = false ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @sequence = (@sequence + 1) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @num_actions = 0 ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @deadline = (@ctx.height + @timeout_interval) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
never break(@player_list)
never break(%js::object)
never break(loop)
raise !{2 == @state}
raise {2 == @state} ;; {@deadline} ;; !{@ctx.height < @deadline}
raise {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_map, @ctx.user) == null_}
raise {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; !{at(@player_map, @ctx.user) == null_} ;; {at(@player_list, at(@player_map, @ctx.user)).fold} | {size(at(@player_list, at(@player_map, @ctx.user)).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
raise {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; !{at(@player_list, at(@player_map, @ctx.user)).step < @sequence}
value fold(0, (~ + 1))
exit !{1 == @state}
exit !{at(@player_list, at(@player_map, @ctx.user)).fold}
exit !{at(@player_map, @ctx.user) == null_}
exit !{size(at(@player_list, at(@player_map, @ctx.user)).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
exit {2 == @state}
exit {at(@player_list, at(@player_map, @ctx.user)).step < @sequence}
exit {did @num_actions = (@num_actions + 1)}
exit {did at(@player_list, at(@player_map, @ctx.user)).step = @sequence}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {did @deadline = (@ctx.height + @timeout_interval)}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {did @is_raise = false}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {did @num_actions = 0}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {did @sequence = (@sequence + 1)}
exit !{@deadline} | {@ctx.height < @deadline}
exit !{$0} | !{@is_raise} | {did at(@player_list, at(@player_map, @ctx.user)).fold = true}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@bet_amount} | {did @bet_amount = 0}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@is_raise} | {did @bet_amount = 0}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {did @bet_amount = 0} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@bet_amount} | {did @state = 3}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@is_raise} | {did @state = 3}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {did @state = 3} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {3 < @round} | {@bet_amount} | {did @state = 1}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {3 < @round} | {@is_raise} | {did @state = 1}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {3 < @round} | {did @state = 1} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@bet_amount} | {@board} | {did @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4))))}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@bet_amount} | {@board} | {did @global_seed = at(%js::object, 0)}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@bet_amount} | {@board} | {did at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1))))}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@bet_amount} | {@board} | {did push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4)))))}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {@is_raise} | {did @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4))))}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {@is_raise} | {did @global_seed = at(%js::object, 0)}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {@is_raise} | {did at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1))))}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {@is_raise} | {did push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4)))))}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {did @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4))))} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {did @global_seed = at(%js::object, 0)} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {did at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1))))} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {did push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4)))))} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{@bet_amount} | !{elem(%js::object).bet < @bet_amount} | {@is_raise} | {did elem(%js::object).fold = true}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{@bet_amount} | {did push(%js::object, elem(@player_list))} | {elem(@player_list).fold} | {size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
at @round = (@round + 1) ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @state = 2 ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @num_reveals = 0 ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @deadline = (@ctx.height + @timeout_interval)
at at(@player_list, at(@player_map, @ctx.user)).fold = true ;; {@is_raise} ;; {$0}
at at(@player_list, at(@player_map, @ctx.user)).step = @sequence
at @num_actions = (@num_actions + 1)
at push(%js::object, elem(@player_list)) ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; !{elem(@player_list).fold} ;; !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
at elem(%js::object).fold = true ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; {elem(%js::object).bet < @bet_amount} ;; !{@is_raise}
at @bet_amount = 0 ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount}
at @state = 1 ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; !{3 < @round}
at @state = 3 ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round}
at at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
at push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4))))) ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
at @global_seed = at(%js::object, 0) ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
at @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4)))) ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
at @is_raise = false ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @sequence = (@sequence + 1) ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @num_actions = 0 ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
effects @round = (@round + 1) ;; @state = 2 ;; @num_reveals = 0 ;; @deadline = (@ctx.height + @timeout_interval) ;; at(@player_list, at(@player_map, @ctx.user)).fold = true ;; at(@player_list, at(@player_map, @ctx.user)).step = @sequence ;; @num_actions = (@num_actions + 1) ;; elem(%js::object).fold = true ;; @bet_amount = 0 ;; @state = 1 ;; @state = 3 ;; @global_seed = at(%js::object, 0) ;; @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4)))) ;; @is_raise = false ;; @sequence = (@sequence + 1) ;; @num_actions = 0
only ctor:js::object(…) ;; ctor:js::object(arr()) ;; ctor:js::object(arr("", "", "", "")) ;; ctor:js::object(arr("2", "3", "4", "5", "6", "7", "8", "9", "T", "J", "Q", "K", "A")) ;; ctor:js::object(arr("H", "D", "C", "S"))
fn js::poker::fold
never concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
at at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
each @round = (@round + 1) ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @state = 2 ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @num_reveals = 0 ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @deadline = (@ctx.height + @timeout_interval) ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each at(@player_list, at(@player_map, @ctx.user)).fold = true ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence}
each at(@player_list, at(@player_map, @ctx.user)).step = @sequence ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence}
each @num_actions = (@num_actions + 1) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence}
each push(%js::object, elem(@player_list)) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; !{elem(@player_list).fold} ;; !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
each elem(%js::object).fold = true ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; {elem(%js::object).bet < @bet_amount} ;; !{@is_raise}
each @bet_amount = 0 ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount}
each @state = 1 ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; !{3 < @round}
each @state = 3 ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round}
each at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
each push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4))))) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
each @global_seed = at(%js::object, 0) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
each @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4)))) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
each @is_raise = false ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @sequence = (@sequence + 1) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @num_actions = 0 ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @deadline = (@ctx.height + @timeout_interval) ;; {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_list, at(@player_map, @ctx.user)).step < @sequence} ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
never break(@player_list)
never break(%js::object)
never break(loop)
raise !{2 == @state}
raise {2 == @state} ;; {@deadline} ;; !{@ctx.height < @deadline}
raise {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {at(@player_map, @ctx.user) == null_}
raise {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; !{at(@player_map, @ctx.user) == null_} ;; {at(@player_list, at(@player_map, @ctx.user)).fold} | {size(at(@player_list, at(@player_map, @ctx.user)).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
raise {2 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; !{at(@player_list, at(@player_map, @ctx.user)).step < @sequence}
value fold(0, (~ + 1))
exit !{1 == @state}
exit !{at(@player_list, at(@player_map, @ctx.user)).fold}
exit !{at(@player_map, @ctx.user) == null_}
exit !{size(at(@player_list, at(@player_map, @ctx.user)).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
exit {2 == @state}
exit {at(@player_list, at(@player_map, @ctx.user)).step < @sequence}
exit {did @num_actions = (@num_actions + 1)}
exit {did at(@player_list, at(@player_map, @ctx.user)).fold = true}
exit {did at(@player_list, at(@player_map, @ctx.user)).step = @sequence}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {did @deadline = (@ctx.height + @timeout_interval)}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {did @is_raise = false}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {did @num_actions = 0}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {did @sequence = (@sequence + 1)}
exit !{@deadline} | {@ctx.height < @deadline}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@bet_amount} | {did @bet_amount = 0}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@is_raise} | {did @bet_amount = 0}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {did @bet_amount = 0} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@bet_amount} | {did @state = 3}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@is_raise} | {did @state = 3}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {did @state = 3} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {3 < @round} | {@bet_amount} | {did @state = 1}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {3 < @round} | {@is_raise} | {did @state = 1}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {3 < @round} | {did @state = 1} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@bet_amount} | {@board} | {did @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4))))}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@bet_amount} | {@board} | {did @global_seed = at(%js::object, 0)}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@bet_amount} | {@board} | {did at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1))))}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@bet_amount} | {@board} | {did push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4)))))}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {@is_raise} | {did @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4))))}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {@is_raise} | {did @global_seed = at(%js::object, 0)}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {@is_raise} | {did at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1))))}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {@is_raise} | {did push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4)))))}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {did @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4))))} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {did @global_seed = at(%js::object, 0)} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {did at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1))))} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{3 < @round} | {@board} | {did push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4)))))} | {elem(%js::object).bet < @bet_amount}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{@bet_amount} | !{elem(%js::object).bet < @bet_amount} | {@is_raise} | {did elem(%js::object).fold = true}
exit !{(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{@bet_amount} | {did push(%js::object, elem(@player_list))} | {elem(@player_list).fold} | {size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
at @round = (@round + 1) ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @state = 2 ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @num_reveals = 0 ;; {1 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @deadline = (@ctx.height + @timeout_interval)
at at(@player_list, at(@player_map, @ctx.user)).fold = true
at at(@player_list, at(@player_map, @ctx.user)).step = @sequence
at @num_actions = (@num_actions + 1)
at push(%js::object, elem(@player_list)) ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; !{elem(@player_list).fold} ;; !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
at elem(%js::object).fold = true ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; {elem(%js::object).bet < @bet_amount} ;; !{@is_raise}
at @bet_amount = 0 ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount}
at @state = 1 ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; !{3 < @round}
at @state = 3 ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round}
at at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
at push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4))))) ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
at @global_seed = at(%js::object, 0) ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
at @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4)))) ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
at @is_raise = false ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @sequence = (@sequence + 1) ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @num_actions = 0 ;; {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {@deadline} ;; !{@ctx.height < @deadline} | {(@num_actions + 1) == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
effects @round = (@round + 1) ;; @state = 2 ;; @num_reveals = 0 ;; @deadline = (@ctx.height + @timeout_interval) ;; at(@player_list, at(@player_map, @ctx.user)).fold = true ;; at(@player_list, at(@player_map, @ctx.user)).step = @sequence ;; @num_actions = (@num_actions + 1) ;; elem(%js::object).fold = true ;; @bet_amount = 0 ;; @state = 1 ;; @state = 3 ;; @global_seed = at(%js::object, 0) ;; @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4)))) ;; @is_raise = false ;; @sequence = (@sequence + 1) ;; @num_actions = 0
only ctor:js::object(…) ;; ctor:js::object(arr()) ;; ctor:js::object(arr("", "", "", "")) ;; ctor:js::object(arr("2", "3", "4", "5", "6", "7", "8", "9", "T", "J", "Q", "K", "A")) ;; ctor:js::object(arr("H", "D", "C", "S"))
fn js::poker::show
never concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
at push(%js::object, elem(%js::object)) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; !{elem(%js::object) == fold(null_, ite({elem(%js::object) == ~}, ~, elem(%js::object)), %js::object)}
at push(%js::object, 0) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; !{12 < fold(0, (~ + 1))}
each push(%js::object, elem(@player_list)) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; !{elem(@player_list).fold} ;; !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
each elem(%js::object).fold = true ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; {elem(%js::object).bet < @bet_amount} ;; !{@is_raise}
each @bet_amount = 0 ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount}
each @state = 1 ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; !{3 < @round}
each @state = 3 ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round}
each at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
each push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4))))) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
each @global_seed = at(%js::object, 0) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
each @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4)))) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
each @is_raise = false ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @sequence = (@sequence + 1) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @num_actions = 0 ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @deadline = (@ctx.height + @timeout_interval) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each at(@player_list, at(@player_map, @ctx.user)).private_seed = $1 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)}
each at(%js::object, elem($0)) = true ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; !{6 < elem($0)} ;; !{at(%js::object, elem($0))}
each push(%js::object, at(concat(@board, %js::object), elem($0))) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; !{6 < elem($0)} ;; !{at(%js::object, elem($0))}
each at(%js::object, "2") = 0 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each at(%js::object, "3") = 1 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each at(%js::object, "4") = 2 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each at(%js::object, "5") = 3 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each at(%js::object, "6") = 4 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each at(%js::object, "7") = 5 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each at(%js::object, "8") = 6 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each at(%js::object, "9") = 7 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each at(%js::object, "10") = 8 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each at(%js::object, "T") = 8 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each at(%js::object, "J") = 9 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each at(%js::object, "Q") = 10 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each at(%js::object, "K") = 11 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each at(%js::object, "A") = 12 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each at(%js::object, "H") = 0 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each at(%js::object, "D") = 0 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each at(%js::object, "C") = 0 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each at(%js::object, "S") = 0 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each push(%js::object, at(%js::object, at(elem(%js::object), 0))) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)} ;; !{at(%js::object, at(elem(%js::object), 0)) == null_} ;; !{at(%js::object, at(elem(%js::object), 1)) == null_}
each at(%js::object, at(elem(%js::object), 1)) = (at(%js::object, at(elem(%js::object), 1)) + 1) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)} ;; !{at(%js::object, at(elem(%js::object), 0)) == null_} ;; !{at(%js::object, at(elem(%js::object), 1)) == null_}
each sort(%js::object) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each reverse(sort(%js::object)) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each %js::object = reverse(sort(%js::object)) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each push(%js::object, elem(%js::object)) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)} ;; !{elem(%js::object) == fold(null_, ite({elem(%js::object) == ~}, ~, elem(%js::object)), %js::object)}
each push(%js::object, 0) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)} ;; !{12 < fold(0, (~ + 1))}
each at(%js::object, elem(%js::object)) = (at(%js::object, elem(%js::object)) + 1) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)}
each at(%js::object, "2") = 0 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each at(%js::object, "3") = 1 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each at(%js::object, "4") = 2 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each at(%js::object, "5") = 3 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each at(%js::object, "6") = 4 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each at(%js::object, "7") = 5 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each at(%js::object, "8") = 6 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each at(%js::object, "9") = 7 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each at(%js::object, "10") = 8 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each at(%js::object, "T") = 8 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each at(%js::object, "J") = 9 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each at(%js::object, "Q") = 10 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each at(%js::object, "K") = 11 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each at(%js::object, "A") = 12 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each at(%js::object, "H") = 0 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each at(%js::object, "D") = 0 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each at(%js::object, "C") = 0 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each at(%js::object, "S") = 0 ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each push(%js::object, at(%js::object, at(elem(@winning_hand), 0))) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)} ;; !{at(%js::object, at(elem(@winning_hand), 0)) == null_} ;; !{at(%js::object, at(elem(@winning_hand), 1)) == null_}
each at(%js::object, at(elem(@winning_hand), 1)) = (at(%js::object, at(elem(@winning_hand), 1)) + 1) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)} ;; !{at(%js::object, at(elem(@winning_hand), 0)) == null_} ;; !{at(%js::object, at(elem(@winning_hand), 1)) == null_}
each sort(%js::object) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each reverse(sort(%js::object)) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each %js::object = reverse(sort(%js::object)) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each push(%js::object, elem(%js::object)) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)} ;; !{elem(%js::object) == fold(null_, ite({elem(%js::object) == ~}, ~, elem(%js::object)), %js::object)}
each push(%js::object, 0) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)} ;; !{12 < fold(0, (~ + 1))}
each at(%js::object, elem(%js::object)) = (at(%js::object, elem(%js::object)) + 1) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)}
each @winning_hand = %js::object ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; !{@winning_hand}
each @winning_players = arr(at(@player_list, at(@player_map, @ctx.user))) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; !{@winning_hand}
each @num_reveals = (@num_reveals + 1) ;; {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)}
never break(@player_list)
never break(%js::object)
never break(loop)
never break($0)
never break(arr("H", "D", "C", "S"))
never break(@winning_hand)
raise !{3 == @state}
raise {3 == @state} ;; {@deadline} ;; !{@ctx.height < @deadline}
raise {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; !{5 == size($0)}
raise {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; !{32 == size($1)}
raise {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; {at(@player_map, @ctx.user) == null_}
raise {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_map, @ctx.user) == null_} ;; {at(@player_list, at(@player_map, @ctx.user)).fold} | {size(at(@player_list, at(@player_map, @ctx.user)).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
raise {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; {at(@player_list, at(@player_map, @ctx.user)).private_seed}
raise {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)}
raise {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {6 < elem($0)}
raise {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; !{6 < elem($0)} ;; {at(%js::object, elem($0))}
raise {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; !{5 == size(%js::object)}
raise {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)} ;; {at(%js::object, at(elem(%js::object), 0)) == null_}
raise {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(%js::object)} ;; !{at(%js::object, at(elem(%js::object), 0)) == null_} ;; {at(%js::object, at(elem(%js::object), 1)) == null_}
raise {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; !{5 == size(@winning_hand)}
raise {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)} ;; {at(%js::object, at(elem(@winning_hand), 0)) == null_}
raise {3 == @state} ;; !{@deadline} | {@ctx.height < @deadline} ;; {5 == size($0)} ;; {32 == size($1)} ;; !{at(@player_list, at(@player_map, @ctx.user)).private_seed} ;; {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)} ;; {@winning_hand} ;; {5 == size(@winning_hand)} ;; !{at(%js::object, at(elem(@winning_hand), 0)) == null_} ;; {at(%js::object, at(elem(@winning_hand), 1)) == null_}
value fold(0, (~ + 1))
value fold(null_, ite({elem(%js::object) == ~}, ~, elem(%js::object)), %js::object)
exit !{1 == @state}
exit !{2 == @state}
exit !{6 < elem($0)}
exit !{at(%js::object, elem($0))}
exit !{at(@player_list, at(@player_map, @ctx.user)).fold}
exit !{at(@player_list, at(@player_map, @ctx.user)).private_seed}
exit !{at(@player_map, @ctx.user) == null_}
exit !{size(at(@player_list, at(@player_map, @ctx.user)).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
exit {3 == @state}
exit {32 == size($1)}
exit {5 == size($0)}
exit {at(@player_list, at(@player_map, @ctx.user)).private_commit == sha256($1)}
exit {did @num_reveals = (@num_reveals + 1)}
exit {did at(%js::object, elem($0)) = true}
exit {did at(@player_list, at(@player_map, @ctx.user)).private_seed = $1}
exit {did push(%js::object, at(concat(@board, %js::object), elem($0)))}
exit !{@deadline} | {@ctx.height < @deadline}
exit !{@winning_hand} | !{at(%js::object, at(elem(%js::object), 0)) == null_}
exit !{@winning_hand} | !{at(%js::object, at(elem(@winning_hand), 0)) == null_}
exit !{@winning_hand} | !{at(%js::object, at(elem(%js::object), 1)) == null_}
exit !{@winning_hand} | !{at(%js::object, at(elem(@winning_hand), 1)) == null_}
exit !{@winning_hand} | {12 < fold(0, (~ + 1))}
exit !{@winning_hand} | {5 == size(%js::object)}
exit !{@winning_hand} | {5 == size(@winning_hand)}
exit !{@winning_hand} | {did %js::object = reverse(sort(%js::object))}
exit !{@winning_hand} | {did at(%js::object, "10") = 8}
exit !{@winning_hand} | {did at(%js::object, "2") = 0}
exit !{@winning_hand} | {did at(%js::object, "3") = 1}
exit !{@winning_hand} | {did at(%js::object, "4") = 2}
exit !{@winning_hand} | {did at(%js::object, "5") = 3}
exit !{@winning_hand} | {did at(%js::object, "6") = 4}
exit !{@winning_hand} | {did at(%js::object, "7") = 5}
exit !{@winning_hand} | {did at(%js::object, "8") = 6}
exit !{@winning_hand} | {did at(%js::object, "9") = 7}
exit !{@winning_hand} | {did at(%js::object, "A") = 12}
exit !{@winning_hand} | {did at(%js::object, "J") = 9}
exit !{@winning_hand} | {did at(%js::object, "K") = 11}
exit !{@winning_hand} | {did at(%js::object, "Q") = 10}
exit !{@winning_hand} | {did at(%js::object, "T") = 8}
exit !{@winning_hand} | {did at(%js::object, elem(%js::object)) = (at(%js::object, elem(%js::object)) + 1)}
exit !{@winning_hand} | {did at(%js::object, "C") = 0}
exit !{@winning_hand} | {did at(%js::object, "D") = 0}
exit !{@winning_hand} | {did at(%js::object, "H") = 0}
exit !{@winning_hand} | {did at(%js::object, "S") = 0}
exit !{@winning_hand} | {did at(%js::object, at(elem(%js::object), 1)) = (at(%js::object, at(elem(%js::object), 1)) + 1)}
exit !{@winning_hand} | {did at(%js::object, at(elem(@winning_hand), 1)) = (at(%js::object, at(elem(@winning_hand), 1)) + 1)}
exit !{@winning_hand} | {did compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))}
exit !{@winning_hand} | {did push(%js::object, at(%js::object, at(elem(%js::object), 0)))}
exit !{@winning_hand} | {did push(%js::object, at(%js::object, at(elem(@winning_hand), 0)))}
exit !{@winning_hand} | {did reverse(sort(%js::object))}
exit !{@winning_hand} | {did sort(%js::object)}
exit {@winning_hand} | {did @winning_hand = %js::object}
exit {@winning_hand} | {did @winning_players = arr(at(@player_list, at(@player_map, @ctx.user)))}
exit !{"EQ" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))} | !{@winning_hand} | {did compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1))}
exit !{@winning_hand} | {did push(%js::object, elem(%js::object))} | {elem(%js::object) == fold(null_, ite({elem(%js::object) == ~}, ~, elem(%js::object)), %js::object)}
exit !{"EQ" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))} | !{"GT" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1))} | !{@winning_hand} | {did @winning_hand = %js::object}
exit !{"EQ" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))} | !{"GT" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1))} | !{@winning_hand} | {did @winning_players = arr(at(@player_list, at(@player_map, @ctx.user)))}
exit !{"GT" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))} | !{@winning_hand} | {"EQ" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))} | {did @winning_hand = %js::object}
exit !{"GT" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))} | !{@winning_hand} | {"EQ" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))} | {did @winning_players = arr(at(@player_list, at(@player_map, @ctx.user)))}
exit !{"EQ" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))} | !{"EQ" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1))} | !{@winning_hand} | {"GT" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1))} | {did push(@winning_players, at(@player_list, at(@player_map, @ctx.user)))}
at push(%js::object, elem(@player_list)) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; !{elem(@player_list).fold} ;; !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
at elem(%js::object).fold = true ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; {@bet_amount} ;; {elem(%js::object).bet < @bet_amount} ;; !{@is_raise}
at @bet_amount = 0 ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount}
at @state = 1 ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; !{3 < @round}
at @state = 3 ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round}
at at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
at push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4))))) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
at @global_seed = at(%js::object, 0) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
at @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4)))) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@bet_amount} | !{@is_raise} | !{elem(%js::object).bet < @bet_amount} ;; {3 < @round} ;; !{@board}
at @is_raise = false ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @sequence = (@sequence + 1) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @num_actions = 0 ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @deadline = (@ctx.height + @timeout_interval) ;; {2 == @state} ;; {@deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_actions == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at at(@player_list, at(@player_map, @ctx.user)).private_seed = $1
at at(%js::object, elem($0)) = true
at push(%js::object, at(concat(@board, %js::object), elem($0)))
at at(%js::object, "2") = 0 ;; {@winning_hand}
at at(%js::object, "3") = 1 ;; {@winning_hand}
at at(%js::object, "4") = 2 ;; {@winning_hand}
at at(%js::object, "5") = 3 ;; {@winning_hand}
at at(%js::object, "6") = 4 ;; {@winning_hand}
at at(%js::object, "7") = 5 ;; {@winning_hand}
at at(%js::object, "8") = 6 ;; {@winning_hand}
at at(%js::object, "9") = 7 ;; {@winning_hand}
at at(%js::object, "10") = 8 ;; {@winning_hand}
at at(%js::object, "T") = 8 ;; {@winning_hand}
at at(%js::object, "J") = 9 ;; {@winning_hand}
at at(%js::object, "Q") = 10 ;; {@winning_hand}
at at(%js::object, "K") = 11 ;; {@winning_hand}
at at(%js::object, "A") = 12 ;; {@winning_hand}
at at(%js::object, "H") = 0 ;; {@winning_hand}
at at(%js::object, "D") = 0 ;; {@winning_hand}
at at(%js::object, "C") = 0 ;; {@winning_hand}
at at(%js::object, "S") = 0 ;; {@winning_hand}
at push(%js::object, at(%js::object, at(elem(%js::object), 0))) ;; {@winning_hand} ;; {5 == size(%js::object)} ;; !{at(%js::object, at(elem(%js::object), 0)) == null_} ;; !{at(%js::object, at(elem(%js::object), 1)) == null_}
at at(%js::object, at(elem(%js::object), 1)) = (at(%js::object, at(elem(%js::object), 1)) + 1) ;; {@winning_hand} ;; {5 == size(%js::object)} ;; !{at(%js::object, at(elem(%js::object), 0)) == null_} ;; !{at(%js::object, at(elem(%js::object), 1)) == null_}
at sort(%js::object) ;; {@winning_hand}
at reverse(sort(%js::object)) ;; {@winning_hand}
at %js::object = reverse(sort(%js::object)) ;; {@winning_hand}
at push(%js::object, elem(%js::object)) ;; {@winning_hand} ;; !{elem(%js::object) == fold(null_, ite({elem(%js::object) == ~}, ~, elem(%js::object)), %js::object)}
at push(%js::object, 0) ;; {@winning_hand} ;; !{12 < fold(0, (~ + 1))}
at at(%js::object, elem(%js::object)) = (at(%js::object, elem(%js::object)) + 1) ;; {@winning_hand}
at push(%js::object, at(%js::object, at(elem(@winning_hand), 0))) ;; {@winning_hand} ;; {5 == size(@winning_hand)} ;; !{at(%js::object, at(elem(@winning_hand), 0)) == null_} ;; !{at(%js::object, at(elem(@winning_hand), 1)) == null_}
at at(%js::object, at(elem(@winning_hand), 1)) = (at(%js::object, at(elem(@winning_hand), 1)) + 1) ;; {@winning_hand} ;; {5 == size(@winning_hand)} ;; !{at(%js::object, at(elem(@winning_hand), 0)) == null_} ;; !{at(%js::object, at(elem(@winning_hand), 1)) == null_}
at compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0)) ;; {@winning_hand}
at compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1)) ;; {@winning_hand} ;; {"EQ" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))}
at @winning_hand = %js::object
at @winning_players = arr(at(@player_list, at(@player_map, @ctx.user)))
at push(@winning_players, at(@player_list, at(@player_map, @ctx.user))) ;; {@winning_hand} ;; !{"EQ" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))} | !{"GT" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1))} ;; !{"GT" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))} | {"EQ" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))} ;; {"EQ" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))} ;; {"EQ" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1))}
at @num_reveals = (@num_reveals + 1)
effects elem(%js::object).fold = true ;; @bet_amount = 0 ;; @state = 1 ;; @state = 3 ;; @global_seed = at(%js::object, 0) ;; @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4)))) ;; @is_raise = false ;; @sequence = (@sequence + 1) ;; @num_actions = 0 ;; @deadline = (@ctx.height + @timeout_interval) ;; at(@player_list, at(@player_map, @ctx.user)).private_seed = $1 ;; sort(%js::object) ;; reverse(sort(%js::object)) ;; compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0)) ;; compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1)) ;; @winning_hand = %js::object ;; @winning_players = arr(at(@player_list, at(@player_map, @ctx.user))) ;; push(@winning_players, at(@player_list, at(@player_map, @ctx.user))) ;; @num_reveals = (@num_reveals + 1)
only ctor:js::object(…) ;; ctor:js::object(arr()) ;; ctor:js::object(arr("", "", "", "")) ;; ctor:js::object(arr("2", "3", "4", "5", "6", "7", "8", "9", "T", "J", "Q", "K", "A")) ;; ctor:js::object(arr("H", "D", "C", "S")) ;; ctor:js::object(arr(arr(at(%js::object, (uint(memcpy(sha256(concat(@global_seed, $1)), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(sha256(concat(@global_seed, $1)), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(sha256(concat(@global_seed, $1)), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(sha256(concat(@global_seed, $1)), 8, 8)) / 13) % 4))))) ;; ctor:js::object(obj())
fn js::poker::claim
at send(@ctx.user, ite({@winning_players}, (@final_pot / size(@winning_players)), ite({empty(%js::object)}, at(@player_list, at(@player_map, @ctx.user)).bet, (@final_pot / size(%js::object)))), @currency, "poker_win") ;; {4 == @state} ;; {@winning_players} | {empty(%js::object)} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} ;; !{empty(%js::object)} | {@winning_players} | {at(@player_list, at(@player_map, @ctx.user))} ;; {@winning_players} | {at(@player_list, at(@player_map, @ctx.user))} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} ;; !{@winning_players} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; {empty(%js::object)} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; !{empty(%js::object)} | {at(@player_list, at(@player_map, @ctx.user))} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; {at(@player_list, at(@player_map, @ctx.user))} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; !{ite({@winning_players}, fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players), ite({empty(%js::object)}, at(@player_list, at(@player_map, @ctx.user)), fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object))).claim}
at ite({@winning_players}, fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players), ite({empty(%js::object)}, at(@player_list, at(@player_map, @ctx.user)), fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object))).claim = true ;; {4 == @state} ;; {@winning_players} | {empty(%js::object)} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} ;; !{empty(%js::object)} | {@winning_players} | {at(@player_list, at(@player_map, @ctx.user))} ;; {@winning_players} | {at(@player_list, at(@player_map, @ctx.user))} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} ;; !{@winning_players} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; {empty(%js::object)} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; !{empty(%js::object)} | {at(@player_list, at(@player_map, @ctx.user))} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; {at(@player_list, at(@player_map, @ctx.user))} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; !{ite({@winning_players}, fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players), ite({empty(%js::object)}, at(@player_list, at(@player_map, @ctx.user)), fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object))).claim}
each @state = 1 ;; !{@state} ;; {1 < size(@player_list)} ;; !{size(@player_list) < @max_players} | {@deadline} ;; !{@ctx.height < @deadline} | !{size(@player_list) < @max_players}
each @deadline = (@ctx.height + @timeout_interval) ;; !{@state} ;; {1 < size(@player_list)} ;; !{size(@player_list) < @max_players} | {@deadline} ;; !{@ctx.height < @deadline} | !{size(@player_list) < @max_players}
each @final_pot = balance(@currency) ;; {@state} ;; !{@final_pot} ;; !{total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {3 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each @state = 4 ;; {@state} ;; !{@final_pot} ;; !{total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {3 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
each push(%js::object, elem(@player_list)) ;; {4 == @state} ;; !{@winning_players} ;; !{elem(@player_list).fold} ;; !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
each send(@ctx.user, ite({@winning_players}, (@final_pot / size(@winning_players)), ite({empty(%js::object)}, at(@player_list, at(@player_map, @ctx.user)).bet, (@final_pot / size(%js::object)))), @currency, "poker_win") ;; {4 == @state} ;; {@winning_players} | {empty(%js::object)} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} ;; !{empty(%js::object)} | {@winning_players} | {at(@player_list, at(@player_map, @ctx.user))} ;; {@winning_players} | {at(@player_list, at(@player_map, @ctx.user))} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} ;; !{@winning_players} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; {empty(%js::object)} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; !{empty(%js::object)} | {at(@player_list, at(@player_map, @ctx.user))} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; {at(@player_list, at(@player_map, @ctx.user))} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; !{ite({@winning_players}, fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players), ite({empty(%js::object)}, at(@player_list, at(@player_map, @ctx.user)), fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object))).claim}
each ite({@winning_players}, fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players), ite({empty(%js::object)}, at(@player_list, at(@player_map, @ctx.user)), fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object))).claim = true ;; {4 == @state} ;; {@winning_players} | {empty(%js::object)} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} ;; !{empty(%js::object)} | {@winning_players} | {at(@player_list, at(@player_map, @ctx.user))} ;; {@winning_players} | {at(@player_list, at(@player_map, @ctx.user))} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} ;; !{@winning_players} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; {empty(%js::object)} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; !{empty(%js::object)} | {at(@player_list, at(@player_map, @ctx.user))} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; {at(@player_list, at(@player_map, @ctx.user))} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; !{ite({@winning_players}, fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players), ite({empty(%js::object)}, at(@player_list, at(@player_map, @ctx.user)), fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object))).claim}
never break(@player_list)
never break(@winning_players)
never break(%js::object)
raise !{4 == @state}
raise {4 == @state} ;; !{@winning_players} ;; {empty(%js::object)} ;; {at(@player_map, @ctx.user) == null_}
raise {4 == @state} ;; !{@winning_players} | !{fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; !{at(@player_list, at(@player_map, @ctx.user))} | !{empty(%js::object)} | {@winning_players} ;; !{fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} | {@winning_players} | {empty(%js::object)}
raise {4 == @state} ;; {@winning_players} | {empty(%js::object)} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} ;; !{empty(%js::object)} | {@winning_players} | {at(@player_list, at(@player_map, @ctx.user))} ;; {@winning_players} | {at(@player_list, at(@player_map, @ctx.user))} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} ;; !{@winning_players} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; {empty(%js::object)} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; !{empty(%js::object)} | {at(@player_list, at(@player_map, @ctx.user))} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; {at(@player_list, at(@player_map, @ctx.user))} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)} ;; {ite({@winning_players}, fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players), ite({empty(%js::object)}, at(@player_list, at(@player_map, @ctx.user)), fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object))).claim}
value fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)
value fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)
exit !{1 == @state}
exit !{3 == @state}
exit !{ite({@winning_players}, fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players), ite({empty(%js::object)}, at(@player_list, at(@player_map, @ctx.user)), fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object))).claim}
exit {4 == @state}
exit {did ite({@winning_players}, fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players), ite({empty(%js::object)}, at(@player_list, at(@player_map, @ctx.user)), fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object))).claim = true}
exit {did send(@ctx.user, ite({@winning_players}, (@final_pot / size(@winning_players)), ite({empty(%js::object)}, at(@player_list, at(@player_map, @ctx.user)).bet, (@final_pot / size(%js::object)))), @currency, "poker_win")}
exit !{@winning_players} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)}
exit !{at(@player_map, @ctx.user) == null_} | !{empty(%js::object)} | {@winning_players}
exit !{empty(%js::object)} | {@winning_players} | {at(@player_list, at(@player_map, @ctx.user))}
exit !{empty(%js::object)} | {at(@player_list, at(@player_map, @ctx.user))} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)}
exit {@winning_players} | {at(@player_list, at(@player_map, @ctx.user))} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)}
exit {@winning_players} | {empty(%js::object)} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)}
exit {at(@player_list, at(@player_map, @ctx.user))} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)}
exit {empty(%js::object)} | {fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object)} | {fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players)}
exit !{1 < size(@player_list)} | {@state} | {did @deadline = (@ctx.height + @timeout_interval)} | {size(@player_list) < @max_players}
exit !{1 < size(@player_list)} | {@state} | {did @state = 1} | {size(@player_list) < @max_players}
exit {@winning_players} | {did push(%js::object, elem(@player_list))} | {elem(@player_list).fold} | {size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
exit !{1 < size(@player_list)} | !{@deadline} | {@ctx.height < @deadline} | {@state} | {did @deadline = (@ctx.height + @timeout_interval)}
exit !{1 < size(@player_list)} | !{@deadline} | {@ctx.height < @deadline} | {@state} | {did @state = 1}
exit !{@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{@state} | {@final_pot} | {did @final_pot = balance(@currency)} | {total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
exit !{@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | !{@state} | {@final_pot} | {did @state = 4} | {total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @state = 1 ;; !{@state} ;; {1 < size(@player_list)} ;; !{size(@player_list) < @max_players} | {@deadline} ;; !{@ctx.height < @deadline} | !{size(@player_list) < @max_players}
at @deadline = (@ctx.height + @timeout_interval) ;; !{@state} ;; {1 < size(@player_list)} ;; !{size(@player_list) < @max_players} | {@deadline} ;; !{@ctx.height < @deadline} | !{size(@player_list) < @max_players}
at @final_pot = balance(@currency) ;; {@state} ;; !{@final_pot} ;; !{total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {3 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at @state = 4 ;; {@state} ;; !{@final_pot} ;; !{total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} | {3 == @state} ;; {@deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))} ;; !{@ctx.height < @deadline} | {@num_reveals == total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
at push(%js::object, elem(@player_list)) ;; !{@winning_players} ;; !{elem(@player_list).fold} ;; !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
at send(@ctx.user, ite({@winning_players}, (@final_pot / size(@winning_players)), ite({empty(%js::object)}, at(@player_list, at(@player_map, @ctx.user)).bet, (@final_pot / size(%js::object)))), @currency, "poker_win")
at ite({@winning_players}, fold(null_, ite({@ctx.user == elem(@winning_players).address}, elem(@winning_players), ~), @winning_players), ite({empty(%js::object)}, at(@player_list, at(@player_map, @ctx.user)), fold(null_, ite({@ctx.user == elem(%js::object).address}, elem(%js::object), ~), %js::object))).claim = true
effects @state = 1 ;; @deadline = (@ctx.height + @timeout_interval) ;; @final_pot = balance(@currency) ;; @state = 4 ;; send(@ctx.user, ite({@winning_players}, (@final_pot / size(@winning_players)), ite({empty(%js::object)}, at(@player_list, at(@player_map, @ctx.user)).bet, (@final_pot / size(%js::object)))), @currency, "poker_win") ;; ite({@winning_players}, …, ite({empty(%js::object)}, at(@player_list, at(@player_map, @ctx.user)), …)).claim = true
only ctor:js::object(…) ;; ctor:js::object(arr())
fn js::poker::is_timeout
never throw …
true {@deadline}
true !{@ctx.height < @deadline}
false !{@deadline} | {@ctx.height < @deadline}
effects none
fn js::poker::get_player
raise {at(@player_map, $0) == null_}
raise !{at(@player_map, $0) == null_} ;; {$1} ;; {at(@player_list, at(@player_map, $0)).fold} | {size(at(@player_list, at(@player_map, $0)).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
exit !{at(@player_map, $0) == null_}
exit {ret = at(@player_list, at(@player_map, $0))}
exit !{$1} | !{at(@player_list, at(@player_map, $0)).fold}
exit !{$1} | !{size(at(@player_list, at(@player_map, $0)).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
effects none
fn js::poker::is_active
never throw …
true !{$0.fold}
true !{size($0.seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
false {$0.fold} | {size($0.seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
effects none
fn js::poker::get_active
each push(%js::object, elem(@player_list)) ;; !{elem(@player_list).fold} ;; !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
never break(@player_list)
never throw …
exit {ret = %js::object}
exit {did push(%js::object, elem(@player_list))} | {elem(@player_list).fold} | {size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
at push(%js::object, elem(@player_list)) ;; !{elem(@player_list).fold} ;; !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}
effects none
only ctor:js::object(…) ;; ctor:js::object(arr())
fn js::poker::get_num_active
never break(@player_list)
never throw …
exit {ret = total(@player_list, ite((!{elem(@player_list).fold} && !{size(elem(@player_list).seed) < (@round + ite((!{1 == @state} || !{@deadline} || {@ctx.height < @deadline}), 0, 1))}), 1, 0))}
effects none
fn js::poker::leave
each send(@ctx.user, at(@player_list, at(@player_map, @ctx.user)).bet, @currency) ;; !{@state} ;; {@deadline} ;; !{@ctx.height < @deadline} ;; {1 == size(@player_list)}
each @player_map = %js::object ;; !{@state} ;; {@deadline} ;; !{@ctx.height < @deadline} ;; {1 == size(@player_list)}
each @player_list = arr() ;; !{@state} ;; {@deadline} ;; !{@ctx.height < @deadline} ;; {1 == size(@player_list)}
raise {@state}
raise !{@state} ;; !{@deadline} | {@ctx.height < @deadline}
raise !{@state} ;; {@deadline} ;; !{@ctx.height < @deadline} ;; !{1 == size(@player_list)}
raise !{@state} ;; {@deadline} ;; !{@ctx.height < @deadline} ;; {1 == size(@player_list)} ;; {at(@player_map, @ctx.user) == null_}
exit !{@ctx.height < @deadline}
exit !{@state}
exit !{at(@player_map, @ctx.user) == null_}
exit {1 == size(@player_list)}
exit {@deadline}
exit {did @player_list = arr()}
exit {did @player_map = %js::object}
exit {did send(@ctx.user, at(@player_list, at(@player_map, @ctx.user)).bet, @currency)}
at send(@ctx.user, at(@player_list, at(@player_map, @ctx.user)).bet, @currency)
at @player_map = %js::object
at @player_list = arr()
effects send(@ctx.user, at(@player_list, at(@player_map, @ctx.user)).bet, @currency) ;; @player_map = %js::object ;; @player_list = arr()
only ctor:js::object(…) ;; ctor:js::object(obj())
fn js::poker::get_rank
at push(%js::object, elem(%js::object)) ;; {5 == size($0)} ;; !{elem(%js::object) == fold(null_, ite({elem(%js::object) == ~}, ~, elem(%js::object)), %js::object)}
at push(%js::object, 0) ;; {5 == size($0)} ;; !{12 < fold(0, (~ + 1))}
each at(%js::object, "2") = 0 ;; {5 == size($0)}
each at(%js::object, "3") = 1 ;; {5 == size($0)}
each at(%js::object, "4") = 2 ;; {5 == size($0)}
each at(%js::object, "5") = 3 ;; {5 == size($0)}
each at(%js::object, "6") = 4 ;; {5 == size($0)}
each at(%js::object, "7") = 5 ;; {5 == size($0)}
each at(%js::object, "8") = 6 ;; {5 == size($0)}
each at(%js::object, "9") = 7 ;; {5 == size($0)}
each at(%js::object, "10") = 8 ;; {5 == size($0)}
each at(%js::object, "T") = 8 ;; {5 == size($0)}
each at(%js::object, "J") = 9 ;; {5 == size($0)}
each at(%js::object, "Q") = 10 ;; {5 == size($0)}
each at(%js::object, "K") = 11 ;; {5 == size($0)}
each at(%js::object, "A") = 12 ;; {5 == size($0)}
each at(%js::object, "H") = 0 ;; {5 == size($0)}
each at(%js::object, "D") = 0 ;; {5 == size($0)}
each at(%js::object, "C") = 0 ;; {5 == size($0)}
each at(%js::object, "S") = 0 ;; {5 == size($0)}
each push(%js::object, at(%js::object, at(elem($0), 0))) ;; {5 == size($0)} ;; !{at(%js::object, at(elem($0), 0)) == null_} ;; !{at(%js::object, at(elem($0), 1)) == null_}
each at(%js::object, at(elem($0), 1)) = (at(%js::object, at(elem($0), 1)) + 1) ;; {5 == size($0)} ;; !{at(%js::object, at(elem($0), 0)) == null_} ;; !{at(%js::object, at(elem($0), 1)) == null_}
each sort(%js::object) ;; {5 == size($0)}
each reverse(sort(%js::object)) ;; {5 == size($0)}
each %js::object = reverse(sort(%js::object)) ;; {5 == size($0)}
each push(%js::object, elem(%js::object)) ;; {5 == size($0)} ;; !{elem(%js::object) == fold(null_, ite({elem(%js::object) == ~}, ~, elem(%js::object)), %js::object)}
each push(%js::object, 0) ;; {5 == size($0)} ;; !{12 < fold(0, (~ + 1))}
each at(%js::object, elem(%js::object)) = (at(%js::object, elem(%js::object)) + 1) ;; {5 == size($0)}
never break($0)
never break(%js::object)
never break(arr("H", "D", "C", "S"))
never break(loop)
raise !{5 == size($0)}
raise {5 == size($0)} ;; {at(%js::object, at(elem($0), 0)) == null_}
raise {5 == size($0)} ;; !{at(%js::object, at(elem($0), 0)) == null_} ;; {at(%js::object, at(elem($0), 1)) == null_}
value fold(0, (~ + 1))
value fold(null_, ite({elem(%js::object) == ~}, ~, elem(%js::object)), %js::object)
exit !{at(%js::object, at(elem($0), 0)) == null_}
exit !{at(%js::object, at(elem($0), 1)) == null_}
exit {12 < fold(0, (~ + 1))}
exit {5 == size($0)}
exit {did %js::object = reverse(sort(%js::object))}
exit {did at(%js::object, "10") = 8}
exit {did at(%js::object, "2") = 0}
exit {did at(%js::object, "3") = 1}
exit {did at(%js::object, "4") = 2}
exit {did at(%js::object, "5") = 3}
exit {did at(%js::object, "6") = 4}
exit {did at(%js::object, "7") = 5}
exit {did at(%js::object, "8") = 6}
exit {did at(%js::object, "9") = 7}
exit {did at(%js::object, "A") = 12}
exit {did at(%js::object, "J") = 9}
exit {did at(%js::object, "K") = 11}
exit {did at(%js::object, "Q") = 10}
exit {did at(%js::object, "T") = 8}
exit {did at(%js::object, elem(%js::object)) = (at(%js::object, elem(%js::object)) + 1)}
exit {did at(%js::object, "C") = 0}
exit {did at(%js::object, "D") = 0}
exit {did at(%js::object, "H") = 0}
exit {did at(%js::object, "S") = 0}
exit {did at(%js::object, at(elem($0), 1)) = (at(%js::object, at(elem($0), 1)) + 1)}
exit {did push(%js::object, at(%js::object, at(elem($0), 0)))}
exit {did reverse(sort(%js::object))}
exit {did sort(%js::object)}
exit {ret = ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object))}
exit {did push(%js::object, elem(%js::object))} | {elem(%js::object) == fold(null_, ite({elem(%js::object) == ~}, ~, elem(%js::object)), %js::object)}
exit !{total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))} | {5 == at(%js::object, elem(arr("H", "D", "C", "S")))} | {ret = arr(8, %js::object)}
exit !{(-at(%js::object, 4) + at(%js::object, 0)) == 4} | !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} | !{5 == size(%js::object)} | {ret = arr(10, %js::object)}
exit !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} | !{equals(%js::object, arr(12, 3, 2, 1, 0))} | {(-at(%js::object, 4) + at(%js::object, 0)) == 4} | {ret = arr(9, %js::object)}
exit !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} | !{equals(%js::object, arr(12, 3, 2, 1, 0))} | {5 == size(%js::object)} | {ret = arr(9, %js::object)}
exit !{total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))} | {(-at(%js::object, 4) + at(%js::object, 0)) == 4} | {equals(%js::object, arr(12, 3, 2, 1, 0))} | {ret = arr(8, %js::object)}
exit !{total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))} | {5 == size(%js::object)} | {equals(%js::object, arr(12, 3, 2, 1, 0))} | {ret = arr(8, %js::object)}
exit !{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} | !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))} | {5 == at(%js::object, elem(arr("H", "D", "C", "S")))} | {ret = arr(7, %js::object)} | {total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}
exit {(-at(%js::object, 4) + at(%js::object, 0)) == 4} | {5 == at(%js::object, elem(arr("H", "D", "C", "S")))} | {ret = ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object)))))} | {total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} | {total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}
exit {(-at(%js::object, 4) + at(%js::object, 0)) == 4} | {5 == at(%js::object, elem(arr("H", "D", "C", "S")))} | {ret = ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object)))))} | {total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))} | {total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}
exit {5 == at(%js::object, elem(arr("H", "D", "C", "S")))} | {5 == size(%js::object)} | {ret = ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object)))))} | {total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} | {total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}
exit {5 == at(%js::object, elem(arr("H", "D", "C", "S")))} | {5 == size(%js::object)} | {ret = ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object)))))} | {total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))} | {total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}
at at(%js::object, "2") = 0
at at(%js::object, "3") = 1
at at(%js::object, "4") = 2
at at(%js::object, "5") = 3
at at(%js::object, "6") = 4
at at(%js::object, "7") = 5
at at(%js::object, "8") = 6
at at(%js::object, "9") = 7
at at(%js::object, "10") = 8
at at(%js::object, "T") = 8
at at(%js::object, "J") = 9
at at(%js::object, "Q") = 10
at at(%js::object, "K") = 11
at at(%js::object, "A") = 12
at at(%js::object, "H") = 0
at at(%js::object, "D") = 0
at at(%js::object, "C") = 0
at at(%js::object, "S") = 0
at push(%js::object, at(%js::object, at(elem($0), 0)))
at at(%js::object, at(elem($0), 1)) = (at(%js::object, at(elem($0), 1)) + 1)
at sort(%js::object)
at reverse(sort(%js::object))
at %js::object = reverse(sort(%js::object))
at push(%js::object, elem(%js::object)) ;; !{elem(%js::object) == fold(null_, ite({elem(%js::object) == ~}, ~, elem(%js::object)), %js::object)}
at push(%js::object, 0) ;; !{12 < fold(0, (~ + 1))}
at at(%js::object, elem(%js::object)) = (at(%js::object, elem(%js::object)) + 1)
effects sort(%js::object) ;; reverse(sort(%js::object))
only ctor:js::object(…) ;; ctor:js::object(obj()) ;; ctor:js::object(arr())
fn js::poker::check_win
each at(%js::object, "2") = 0 ;; {5 == size($0)}
each at(%js::object, "3") = 1 ;; {5 == size($0)}
each at(%js::object, "4") = 2 ;; {5 == size($0)}
each at(%js::object, "5") = 3 ;; {5 == size($0)}
each at(%js::object, "6") = 4 ;; {5 == size($0)}
each at(%js::object, "7") = 5 ;; {5 == size($0)}
each at(%js::object, "8") = 6 ;; {5 == size($0)}
each at(%js::object, "9") = 7 ;; {5 == size($0)}
each at(%js::object, "10") = 8 ;; {5 == size($0)}
each at(%js::object, "T") = 8 ;; {5 == size($0)}
each at(%js::object, "J") = 9 ;; {5 == size($0)}
each at(%js::object, "Q") = 10 ;; {5 == size($0)}
each at(%js::object, "K") = 11 ;; {5 == size($0)}
each at(%js::object, "A") = 12 ;; {5 == size($0)}
each at(%js::object, "H") = 0 ;; {5 == size($0)}
each at(%js::object, "D") = 0 ;; {5 == size($0)}
each at(%js::object, "C") = 0 ;; {5 == size($0)}
each at(%js::object, "S") = 0 ;; {5 == size($0)}
each push(%js::object, at(%js::object, at(elem($0), 0))) ;; {5 == size($0)} ;; !{at(%js::object, at(elem($0), 0)) == null_} ;; !{at(%js::object, at(elem($0), 1)) == null_}
each at(%js::object, at(elem($0), 1)) = (at(%js::object, at(elem($0), 1)) + 1) ;; {5 == size($0)} ;; !{at(%js::object, at(elem($0), 0)) == null_} ;; !{at(%js::object, at(elem($0), 1)) == null_}
each sort(%js::object) ;; {5 == size($0)}
each reverse(sort(%js::object)) ;; {5 == size($0)}
each %js::object = reverse(sort(%js::object)) ;; {5 == size($0)}
each push(%js::object, elem(%js::object)) ;; {5 == size($0)} ;; !{elem(%js::object) == fold(null_, ite({elem(%js::object) == ~}, ~, elem(%js::object)), %js::object)}
each push(%js::object, 0) ;; {5 == size($0)} ;; !{12 < fold(0, (~ + 1))}
each at(%js::object, elem(%js::object)) = (at(%js::object, elem(%js::object)) + 1) ;; {5 == size($0)}
each at(%js::object, "2") = 0 ;; {5 == size($1)}
each at(%js::object, "3") = 1 ;; {5 == size($1)}
each at(%js::object, "4") = 2 ;; {5 == size($1)}
each at(%js::object, "5") = 3 ;; {5 == size($1)}
each at(%js::object, "6") = 4 ;; {5 == size($1)}
each at(%js::object, "7") = 5 ;; {5 == size($1)}
each at(%js::object, "8") = 6 ;; {5 == size($1)}
each at(%js::object, "9") = 7 ;; {5 == size($1)}
each at(%js::object, "10") = 8 ;; {5 == size($1)}
each at(%js::object, "T") = 8 ;; {5 == size($1)}
each at(%js::object, "J") = 9 ;; {5 == size($1)}
each at(%js::object, "Q") = 10 ;; {5 == size($1)}
each at(%js::object, "K") = 11 ;; {5 == size($1)}
each at(%js::object, "A") = 12 ;; {5 == size($1)}
each at(%js::object, "H") = 0 ;; {5 == size($1)}
each at(%js::object, "D") = 0 ;; {5 == size($1)}
each at(%js::object, "C") = 0 ;; {5 == size($1)}
each at(%js::object, "S") = 0 ;; {5 == size($1)}
each push(%js::object, at(%js::object, at(elem($1), 0))) ;; {5 == size($1)} ;; !{at(%js::object, at(elem($1), 0)) == null_} ;; !{at(%js::object, at(elem($1), 1)) == null_}
each at(%js::object, at(elem($1), 1)) = (at(%js::object, at(elem($1), 1)) + 1) ;; {5 == size($1)} ;; !{at(%js::object, at(elem($1), 0)) == null_} ;; !{at(%js::object, at(elem($1), 1)) == null_}
each sort(%js::object) ;; {5 == size($1)}
each reverse(sort(%js::object)) ;; {5 == size($1)}
each %js::object = reverse(sort(%js::object)) ;; {5 == size($1)}
each push(%js::object, elem(%js::object)) ;; {5 == size($1)} ;; !{elem(%js::object) == fold(null_, ite({elem(%js::object) == ~}, ~, elem(%js::object)), %js::object)}
each push(%js::object, 0) ;; {5 == size($1)} ;; !{12 < fold(0, (~ + 1))}
each at(%js::object, elem(%js::object)) = (at(%js::object, elem(%js::object)) + 1) ;; {5 == size($1)}
never break($0)
never break(%js::object)
never break(arr("H", "D", "C", "S"))
never break(loop)
never break($1)
raise !{5 == size($0)}
raise {5 == size($0)} ;; {at(%js::object, at(elem($0), 0)) == null_}
raise {5 == size($0)} ;; !{at(%js::object, at(elem($0), 0)) == null_} ;; {at(%js::object, at(elem($0), 1)) == null_}
raise !{5 == size($1)}
raise {5 == size($1)} ;; {at(%js::object, at(elem($1), 0)) == null_}
raise {5 == size($1)} ;; !{at(%js::object, at(elem($1), 0)) == null_} ;; {at(%js::object, at(elem($1), 1)) == null_}
value fold(0, (~ + 1))
value fold(null_, ite({elem(%js::object) == ~}, ~, elem(%js::object)), %js::object)
exit !{at(%js::object, at(elem($0), 0)) == null_}
exit !{at(%js::object, at(elem($1), 0)) == null_}
exit !{at(%js::object, at(elem($0), 1)) == null_}
exit !{at(%js::object, at(elem($1), 1)) == null_}
exit {12 < fold(0, (~ + 1))}
exit {5 == size($0)}
exit {5 == size($1)}
exit {did %js::object = reverse(sort(%js::object))}
exit {did at(%js::object, "10") = 8}
exit {did at(%js::object, "2") = 0}
exit {did at(%js::object, "3") = 1}
exit {did at(%js::object, "4") = 2}
exit {did at(%js::object, "5") = 3}
exit {did at(%js::object, "6") = 4}
exit {did at(%js::object, "7") = 5}
exit {did at(%js::object, "8") = 6}
exit {did at(%js::object, "9") = 7}
exit {did at(%js::object, "A") = 12}
exit {did at(%js::object, "J") = 9}
exit {did at(%js::object, "K") = 11}
exit {did at(%js::object, "Q") = 10}
exit {did at(%js::object, "T") = 8}
exit {did at(%js::object, elem(%js::object)) = (at(%js::object, elem(%js::object)) + 1)}
exit {did at(%js::object, "C") = 0}
exit {did at(%js::object, "D") = 0}
exit {did at(%js::object, "H") = 0}
exit {did at(%js::object, "S") = 0}
exit {did at(%js::object, at(elem($0), 1)) = (at(%js::object, at(elem($0), 1)) + 1)}
exit {did at(%js::object, at(elem($1), 1)) = (at(%js::object, at(elem($1), 1)) + 1)}
exit {did compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))}
exit {did push(%js::object, at(%js::object, at(elem($0), 0)))}
exit {did push(%js::object, at(%js::object, at(elem($1), 0)))}
exit {did reverse(sort(%js::object))}
exit {did sort(%js::object)}
exit {ret = ite({"EQ" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))}, compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1)), compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0)))}
exit !{"EQ" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))} | {did compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1))}
exit !{"EQ" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))} | {ret = compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1))}
exit {"EQ" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))} | {ret = compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))}
exit {did push(%js::object, elem(%js::object))} | {elem(%js::object) == fold(null_, ite({elem(%js::object) == ~}, ~, elem(%js::object)), %js::object)}
at at(%js::object, "2") = 0
at at(%js::object, "3") = 1
at at(%js::object, "4") = 2
at at(%js::object, "5") = 3
at at(%js::object, "6") = 4
at at(%js::object, "7") = 5
at at(%js::object, "8") = 6
at at(%js::object, "9") = 7
at at(%js::object, "10") = 8
at at(%js::object, "T") = 8
at at(%js::object, "J") = 9
at at(%js::object, "Q") = 10
at at(%js::object, "K") = 11
at at(%js::object, "A") = 12
at at(%js::object, "H") = 0
at at(%js::object, "D") = 0
at at(%js::object, "C") = 0
at at(%js::object, "S") = 0
at push(%js::object, at(%js::object, at(elem($0), 0)))
at at(%js::object, at(elem($0), 1)) = (at(%js::object, at(elem($0), 1)) + 1)
at sort(%js::object)
at reverse(sort(%js::object))
at %js::object = reverse(sort(%js::object))
at push(%js::object, elem(%js::object)) ;; !{elem(%js::object) == fold(null_, ite({elem(%js::object) == ~}, ~, elem(%js::object)), %js::object)}
at push(%js::object, 0) ;; !{12 < fold(0, (~ + 1))}
at at(%js::object, elem(%js::object)) = (at(%js::object, elem(%js::object)) + 1)
at push(%js::object, at(%js::object, at(elem($1), 0)))
at at(%js::object, at(elem($1), 1)) = (at(%js::object, at(elem($1), 1)) + 1)
at compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))
at compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1)) ;; {"EQ" == compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0))}
effects sort(%js::object) ;; reverse(sort(%js::object)) ;; compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 0)) ;; compare(at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1), at(ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{5 == size(%js::object)}), ite((!{5 == at(%js::object, elem(arr("H", "D", "C", "S")))} || !{equals(%js::object, arr(12, 3, 2, 1, 0))}), ite({total(%js::object, ite({4 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(8, %js::object), ite((!{total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))} || !{total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}), ite({5 == at(%js::object, elem(arr("H", "D", "C", "S")))}, arr(6, %js::object), ite((!{(-at(%js::object, 4) + at(%js::object, 0)) == 4} || !{5 == size(%js::object)}), ite({equals(%js::object, arr(12, 3, 2, 1, 0))}, arr(4, %js::object), ite({total(%js::object, ite({3 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(3, %js::object), ite({2 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(2, %js::object), ite({1 == total(%js::object, ite({2 == at(%js::object, elem(%js::object))}, 1, 0))}, arr(1, %js::object), arr(0, %js::object))))), arr(5, %js::object))), arr(7, %js::object))), arr(9, %js::object)), arr(10, %js::object)), 1))
only ctor:js::object(…) ;; ctor:js::object(obj()) ;; ctor:js::object(arr())
fn js::poker::get_card
never throw …
exit {ret = arr(at(%js::object, (uint($0) % 13)), at(%js::object, ((uint($0) / 13) % 4)))}
effects none
only ctor:js::object(…) ;; ctor:js::object(arr("2", "3", "4", "5", "6", "7", "8", "9", "T", "J", "Q", "K", "A")) ;; ctor:js::object(arr("H", "D", "C", "S"))
fn js::poker::compute
never concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; !{@board} ;; {3 == @state} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
each at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; !{@board} ;; {3 == @state} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
each push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4))))) ;; !{@board} ;; {3 == @state}
each @global_seed = at(%js::object, 0) ;; !{@board} ;; {3 == @state}
each @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4)))) ;; !{@board} ;; {3 == @state}
never break(loop)
never break(@player_list)
raise !{@board} ;; !{3 == @state}
value fold(0, (~ + 1))
exit {ret = ite({@board}, @board, void)}
exit !{@board} | {ret = @board}
exit {3 == @state} | {@board}
exit {@board} | {did @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4))))}
exit {@board} | {did @global_seed = at(%js::object, 0)}
exit {@board} | {did at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1))))}
exit {@board} | {did push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4)))))}
exit !{fold(0, (~ + 1)) < size(elem(@player_list).seed)} | {3 < fold(0, (~ + 1))} | {@board}
at at(%js::object, fold(0, (~ + 1))) = concat(at(%js::object, fold(0, (~ + 1))), at(elem(@player_list).seed, fold(0, (~ + 1)))) ;; !{@board} ;; {3 == @state} ;; {fold(0, (~ + 1)) < size(elem(@player_list).seed)} ;; !{3 < fold(0, (~ + 1))}
at push(%js::object, ite({idx(4)}, sha256(concat(at(%js::object, (idx(4) + -1)), sha256(at(%js::object, idx(4))))), sha256(at(%js::object, idx(4))))) ;; !{@board} ;; {3 == @state}
at @global_seed = at(%js::object, 0) ;; !{@board} ;; {3 == @state}
at @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4)))) ;; !{@board} ;; {3 == @state}
effects @global_seed = at(%js::object, 0) ;; @board = arr(arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 8)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 8)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 1), 8, 16)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 1), 8, 16)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 2), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 2), 8, 0)) / 13) % 4))), arr(at(%js::object, (uint(memcpy(at(%js::object, 3), 8, 0)) % 13)), at(%js::object, ((uint(memcpy(at(%js::object, 3), 8, 0)) / 13) % 4))))
only ctor:js::object(…) ;; ctor:js::object(arr("", "", "", "")) ;; ctor:js::object(arr()) ;; ctor:js::object(arr("2", "3", "4", "5", "6", "7", "8", "9", "T", "J", "Q", "K", "A")) ;; ctor:js::object(arr("H", "D", "C", "S"))
fn js::poker::_init_state
each @currency = null_
each @blind_bet = null_
each @bet_limit = null_
each @max_players = null_
each @timeout_interval = null_
each @num_reveals = 0
each @num_actions = 0
each @deadline = null_
each @round = 0
each @state = 0
each @sequence = 1
each @bet_amount = 0
each @is_raise = false
each @player_map = obj()
each @player_list = arr()
each @board = null_
each @final_pot = null_
each @global_seed = null_
each @winning_hand = null_
each @winning_players = null_
never throw …
exit {did @bet_amount = 0}
exit {did @bet_limit = null_}
exit {did @blind_bet = null_}
exit {did @board = null_}
exit {did @currency = null_}
exit {did @deadline = null_}
exit {did @final_pot = null_}
exit {did @global_seed = null_}
exit {did @is_raise = false}
exit {did @max_players = null_}
exit {did @num_actions = 0}
exit {did @num_reveals = 0}
exit {did @player_list = arr()}
exit {did @player_map = obj()}
exit {did @round = 0}
exit {did @sequence = 1}
exit {did @state = 0}
exit {did @timeout_interval = null_}
exit {did @winning_hand = null_}
exit {did @winning_players = null_}
at @currency = null_
at @blind_bet = null_
at @bet_limit = null_
at @max_players = null_
at @timeout_interval = null_
at @num_reveals = 0
at @num_actions = 0
at @deadline = null_
at @round = 0
at @state = 0
at @sequence = 1
at @bet_amount = 0
at @is_raise = false
at @player_map = obj()
at @player_list = arr()
at @board = null_
at @final_pot = null_
at @global_seed = null_
at @winning_hand = null_
at @winning_players = null_
effects @currency = null_ ;; @blind_bet = null_ ;; @bet_limit = null_ ;; @max_players = null_ ;; @timeout_interval = null_ ;; @num_reveals = 0 ;; @num_actions = 0 ;; @deadline = null_ ;; @round = 0 ;; @state = 0 ;; @sequence = 1 ;; @bet_amount = 0 ;; @is_raise = false ;; @player_map = obj() ;; @player_list = arr() ;; @board = null_ ;; @final_pot = null_ ;; @global_seed = null_ ;; @winning_hand = null_ ;; @winning_players = null_
fn js::poker::_methods
each method("join", "payable public")
each method("reveal", "public")
each method("bet", "public")
each method("check", "public")
each method("fold", "public")
each method("show", "public")
each method("claim", "public")
each method("is_timeout", "const public")
each method("get_player", "const public")
each method("is_active", "const public")
each method("get_active", "const public")
each method("get_num_active", "const public")
each method("leave", "public")
each method("get_rank", "const public")
each method("check_win", "const public")
each method("get_card", "const public")
each method("compute", "public")
never throw …
exit {did method("join", "payable public")}
exit {did method("reveal", "public")}
exit {did method("bet", "public")}
exit {did method("check", "public")}
exit {did method("fold", "public")}
exit {did method("show", "public")}
exit {did method("claim", "public")}
exit {did method("is_timeout", "const public")}
exit {did method("get_player", "const public")}
exit {did method("is_active", "const public")}
exit {did method("get_active", "const public")}
exit {did method("get_num_active", "const public")}
exit {did method("leave", "public")}
exit {did method("get_rank", "const public")}
exit {did method("check_win", "const public")}
exit {did method("get_card", "const public")}
exit {did method("compute", "public")}
only method(…, "…public…") ;; method("join", "payable public") ;; method("reveal", "public") ;; method("bet", "public") ;; method("check", "public") ;; method("fold", "public") ;; method("show", "public") ;; method("claim", "public") ;; method("is_timeout", "const public") ;; method("get_player", "const public") ;; method("is_active", "const public") ;; method("get_active", "const public") ;; method("get_num_active", "const public") ;; method("leave", "public") ;; method("get_rank", "const public") ;; method("check_win", "const public") ;; method("get_card", "const public") ;; method("compute", "public")
never method(…, "…static…")
fn js::crypto_horse_race::init
each push(@balance, 0)
each @currency = bech32($1)
each @activation_height = uint($4)
each @PRECISION = (10 * @PRECISION)
each @TOKEN_SCALE = (10 * @TOKEN_SCALE)
never break(loop)
never throw …
exit {did @activation_height = uint($4)}
exit {did @currency = bech32($1)}
at push(@balance, 0)
at @currency = bech32($1)
at @activation_height = uint($4)
at @PRECISION = (10 * @PRECISION)
at @TOKEN_SCALE = (10 * @TOKEN_SCALE)
effects push(@balance, 0) ;; @currency = bech32($1) ;; @activation_height = uint($4) ;; @PRECISION = (10 * @PRECISION) ;; @TOKEN_SCALE = (10 * @TOKEN_SCALE)
fn js::crypto_horse_race::calc_price
never throw …
value fold(($0 / @PRECISION), ((((($0 / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20)
exit {ret = (@PRECISION * fold(($0 / @PRECISION), ((((($0 / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20))}
exit {did break(loop)} | {fold(($0 / @PRECISION), ((((($0 / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20)}
never break(loop) ;; !{fold(($0 / @PRECISION), ((((($0 / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20)}
effects none
fn js::crypto_horse_race::get_price
never throw …
value fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20)
exit {ret = (@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20))}
exit {did break(loop)} | {fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20)}
never break(loop) ;; !{fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20)}
effects none
fn js::crypto_horse_race::get_buy_price
never throw …
value fold(((at(@balance, $0) + uint($1)) / @PRECISION), ((((((at(@balance, $0) + uint($1)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20)
exit {ret = (@PRECISION * fold(((at(@balance, $0) + uint($1)) / @PRECISION), ((((((at(@balance, $0) + uint($1)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20))}
exit {did break(loop)} | {fold(((at(@balance, $0) + uint($1)) / @PRECISION), ((((((at(@balance, $0) + uint($1)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20)}
never break(loop) ;; !{fold(((at(@balance, $0) + uint($1)) / @PRECISION), ((((((at(@balance, $0) + uint($1)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20)}
effects none
fn js::crypto_horse_race::get_sell_price
never throw …
value fold(((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint($1)) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION), ((((((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~?) + (18446744073709551616 * ~?)) >> 65), 20) * uint($1)) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20)
exit {ret = (@PRECISION * fold(((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint($1)) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION), ((((((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~?) + (18446744073709551616 * ~?)) >> 65), 20) * uint($1)) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20))}
exit {did break(loop)} | {fold(((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint($1)) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION), ((((((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~?) + (18446744073709551616 * ~?)) >> 65), 20) * uint($1)) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20)}
exit {did break(loop)} | {fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20)}
effects none
fn js::crypto_horse_race::buy_horse
at at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0) = (((@TOKEN_SCALE * @ctx.deposit.amount) / (@PRECISION * fold(((at(@balance, $0) + uint(@ctx.deposit.amount)) / @PRECISION), ((((((at(@balance, $0) + uint(@ctx.deposit.amount)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20))) + ite({at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)}, at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0), 0)) ;; {$0 < size(@balance)} ;; !{@ctx.height < @activation_height} ;; {@ctx.deposit.currency == @currency}
each at(@wallets, @ctx.user) = %js::object ;; {$0 < size(@balance)} ;; !{@ctx.height < @activation_height} ;; {@ctx.deposit.currency == @currency} ;; {@ctx.user} ;; !{at(@wallets, @ctx.user)}
each at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0) = (((@TOKEN_SCALE * @ctx.deposit.amount) / (@PRECISION * fold(((at(@balance, $0) + uint(@ctx.deposit.amount)) / @PRECISION), ((((((at(@balance, $0) + uint(@ctx.deposit.amount)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20))) + ite({at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)}, at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0), 0)) ;; {$0 < size(@balance)} ;; !{@ctx.height < @activation_height} ;; {@ctx.deposit.currency == @currency}
each at(@balance, $0) = (@ctx.deposit.amount + at(@balance, $0)) ;; {$0 < size(@balance)} ;; !{@ctx.height < @activation_height} ;; {@ctx.deposit.currency == @currency}
raise !{$0 < size(@balance)}
raise {$0 < size(@balance)} ;; {@ctx.height < @activation_height}
raise {$0 < size(@balance)} ;; !{@ctx.height < @activation_height} ;; !{@ctx.deposit.currency == @currency}
raise {$0 < size(@balance)} ;; !{@ctx.height < @activation_height} ;; {@ctx.deposit.currency == @currency} ;; !{@ctx.user}
value fold(((at(@balance, $0) + uint(@ctx.deposit.amount)) / @PRECISION), ((((((at(@balance, $0) + uint(@ctx.deposit.amount)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20)
exit !{@ctx.height < @activation_height}
exit {$0 < size(@balance)}
exit {@ctx.deposit.currency == @currency}
exit {@ctx.user}
exit {did at(@balance, $0) = (@ctx.deposit.amount + at(@balance, $0))}
exit {did at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0) = (((@TOKEN_SCALE * @ctx.deposit.amount) / (@PRECISION * fold(((at(@balance, $0) + uint(@ctx.deposit.amount)) / @PRECISION), ((((((at(@balance, $0) + uint(@ctx.deposit.amount)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20))) + ite({at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)}, at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0), 0))}
exit {at(@wallets, @ctx.user)} | {did at(@wallets, @ctx.user) = %js::object}
exit {did break(loop)} | {fold(((at(@balance, $0) + uint(@ctx.deposit.amount)) / @PRECISION), ((((((at(@balance, $0) + uint(@ctx.deposit.amount)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20)}
never break(loop) ;; !{fold(((at(@balance, $0) + uint(@ctx.deposit.amount)) / @PRECISION), ((((((at(@balance, $0) + uint(@ctx.deposit.amount)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20)}
at at(@wallets, @ctx.user) = %js::object ;; !{at(@wallets, @ctx.user)}
at at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0) = (((@TOKEN_SCALE * @ctx.deposit.amount) / (@PRECISION * fold(((at(@balance, $0) + uint(@ctx.deposit.amount)) / @PRECISION), ((((((at(@balance, $0) + uint(@ctx.deposit.amount)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20))) + ite({at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)}, at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0), 0))
at at(@balance, $0) = (@ctx.deposit.amount + at(@balance, $0))
effects at(@wallets, @ctx.user) = %js::object ;; at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0) = (((@TOKEN_SCALE * @ctx.deposit.amount) / (@PRECISION * …)) + ite({at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)}, at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0), 0)) ;; at(@balance, $0) = (@ctx.deposit.amount + at(@balance, $0))
only ctor:js::object(…) ;; ctor:js::object(obj())
fn js::crypto_horse_race::sell_horse
at at(@balance, $0) = (-((@PRECISION * fold(((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION), ((((((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~?) + (18446744073709551616 * ~?)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint($1)) / @TOKEN_SCALE) + at(@balance, $0)) ;; {uint($1)} ;; {$0 < size(@balance)} ;; !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0) < uint($1)} | !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)} ;; !{uint($1)} | {at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)}
at send(@ctx.user, ((@PRECISION * fold(((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION), ((((((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~?) + (18446744073709551616 * ~?)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint($1)) / @TOKEN_SCALE), @currency) ;; {uint($1)} ;; {$0 < size(@balance)} ;; !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0) < uint($1)} | !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)} ;; !{uint($1)} | {at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)}
each at(@wallets, @ctx.user) = %js::object ;; {uint($1)} ;; {$0 < size(@balance)} ;; {@ctx.user} ;; !{at(@wallets, @ctx.user)}
each at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0) = (-uint($1) + ite({at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)}, at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0), 0)) ;; {uint($1)} ;; {$0 < size(@balance)} ;; !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0) < uint($1)} | !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)} ;; !{uint($1)} | {at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)}
each at(@balance, $0) = (-((@PRECISION * fold(((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION), ((((((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~?) + (18446744073709551616 * ~?)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint($1)) / @TOKEN_SCALE) + at(@balance, $0)) ;; {uint($1)} ;; {$0 < size(@balance)} ;; !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0) < uint($1)} | !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)} ;; !{uint($1)} | {at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)}
each send(@ctx.user, ((@PRECISION * fold(((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION), ((((((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~?) + (18446744073709551616 * ~?)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint($1)) / @TOKEN_SCALE), @currency) ;; {uint($1)} ;; {$0 < size(@balance)} ;; !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0) < uint($1)} | !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)} ;; !{uint($1)} | {at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)}
raise !{uint($1)}
raise {uint($1)} ;; !{$0 < size(@balance)}
raise {uint($1)} ;; {$0 < size(@balance)} ;; !{@ctx.user}
raise {uint($1)} ;; {$0 < size(@balance)} ;; {at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)} | {uint($1)} ;; !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)} | {at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0) < uint($1)} ;; {at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0) < uint($1)} | {uint($1)}
value fold(((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION), ((((((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~?) + (18446744073709551616 * ~?)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20)
exit !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0) < uint($1)}
exit {$0 < size(@balance)}
exit {@ctx.user}
exit {at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)}
exit {did at(@balance, $0) = (-((@PRECISION * fold(((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION), ((((((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~?) + (18446744073709551616 * ~?)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint($1)) / @TOKEN_SCALE) + at(@balance, $0))}
exit {did at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0) = (-uint($1) + ite({at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)}, at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0), 0))}
exit {did send(@ctx.user, ((@PRECISION * fold(((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION), ((((((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~?) + (18446744073709551616 * ~?)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint($1)) / @TOKEN_SCALE), @currency)}
exit {uint($1)}
exit {at(@wallets, @ctx.user)} | {did at(@wallets, @ctx.user) = %js::object}
exit {did break(loop)} | {fold(((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION), ((((((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~?) + (18446744073709551616 * ~?)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20)}
exit {did break(loop)} | {fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20)}
at at(@wallets, @ctx.user) = %js::object ;; !{at(@wallets, @ctx.user)}
at at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0) = (-uint($1) + ite({at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)}, at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0), 0))
at at(@balance, $0) = (-((@PRECISION * fold(((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION), ((((((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~?) + (18446744073709551616 * ~?)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint($1)) / @TOKEN_SCALE) + at(@balance, $0))
at send(@ctx.user, ((@PRECISION * fold(((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION), ((((((-((@PRECISION * fold((at(@balance, $0) / @PRECISION), (((((at(@balance, $0) / @PRECISION) * 18446744073709551616) / ~?) + (18446744073709551616 * ~?)) >> 65), 20) * uint(uint($1))) / @TOKEN_SCALE) + at(@balance, $0)) / @PRECISION) * 18446744073709551616) / ~) + (18446744073709551616 * ~)) >> 65), 20) * uint($1)) / @TOKEN_SCALE), @currency)
effects at(@wallets, @ctx.user) = %js::object ;; at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0) = (-uint($1) + ite({at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)}, at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0), 0)) ;; at(@balance, $0) = (-((@PRECISION * … * uint($1)) / @TOKEN_SCALE) + at(@balance, $0)) ;; send(@ctx.user, ((@PRECISION * … * uint($1)) / @TOKEN_SCALE), @currency)
never break(loop) ;; {uint($1)} ;; {$0 < size(@balance)} ;; !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0) < uint($1)} | !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)} ;; !{uint($1)} | {at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $0)}
only ctor:js::object(…) ;; ctor:js::object(obj())
fn js::crypto_horse_race::transfer
each at(@wallets, @ctx.user) = %js::object ;; {uint($1)} ;; {$2 < size(@balance)} ;; {@ctx.user} ;; !{at(@wallets, @ctx.user)}
each at(@wallets, bech32($0)) = %js::object ;; {uint($1)} ;; {$2 < size(@balance)} ;; !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2) < uint($1)} | !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2)} ;; !{uint($1)} | {at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2)} ;; {bech32($0)} ;; !{at(@wallets, bech32($0))}
each at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2) = (-uint($1) + at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2)) ;; {uint($1)} ;; {$2 < size(@balance)} ;; !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2) < uint($1)} | !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2)} ;; !{uint($1)} | {at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2)} ;; {%js::object} | {at(@wallets, bech32($0))}
each at(ite({at(@wallets, bech32($0))}, at(@wallets, bech32($0)), %js::object), $2) = (ite({at(ite({at(@wallets, bech32($0))}, at(@wallets, bech32($0)), %js::object), $2)}, at(ite({at(@wallets, bech32($0))}, at(@wallets, bech32($0)), %js::object), $2), 0) + uint($1)) ;; {uint($1)} ;; {$2 < size(@balance)} ;; !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2) < uint($1)} | !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2)} ;; !{uint($1)} | {at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2)} ;; {%js::object} | {at(@wallets, bech32($0))}
raise !{uint($1)}
raise {uint($1)} ;; !{$2 < size(@balance)}
raise {uint($1)} ;; {$2 < size(@balance)} ;; !{@ctx.user}
raise {uint($1)} ;; {$2 < size(@balance)} ;; {at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2)} | {uint($1)} ;; !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2)} | {at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2) < uint($1)} ;; {at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2) < uint($1)} | {uint($1)}
raise {uint($1)} ;; {$2 < size(@balance)} ;; !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2) < uint($1)} | !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2)} ;; !{uint($1)} | {at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2)} ;; !{bech32($0)}
raise {uint($1)} ;; {$2 < size(@balance)} ;; !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2) < uint($1)} | !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2)} ;; !{uint($1)} | {at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2)} ;; !{at(@wallets, bech32($0))} ;; !{%js::object}
exit !{at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2) < uint($1)}
exit {$2 < size(@balance)}
exit {@ctx.user}
exit {at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2)}
exit {bech32($0)}
exit {did at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2) = (-uint($1) + at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2))}
exit {did at(ite({at(@wallets, bech32($0))}, at(@wallets, bech32($0)), %js::object), $2) = (ite({at(ite({at(@wallets, bech32($0))}, at(@wallets, bech32($0)), %js::object), $2)}, at(ite({at(@wallets, bech32($0))}, at(@wallets, bech32($0)), %js::object), $2), 0) + uint($1))}
exit {uint($1)}
exit {%js::object} | {at(@wallets, bech32($0))}
exit {at(@wallets, @ctx.user)} | {did at(@wallets, @ctx.user) = %js::object}
exit {at(@wallets, bech32($0))} | {did at(@wallets, bech32($0)) = %js::object}
at at(@wallets, @ctx.user) = %js::object ;; !{at(@wallets, @ctx.user)}
at at(@wallets, bech32($0)) = %js::object ;; !{at(@wallets, bech32($0))}
at at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2) = (-uint($1) + at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2))
at at(ite({at(@wallets, bech32($0))}, at(@wallets, bech32($0)), %js::object), $2) = (ite({at(ite({at(@wallets, bech32($0))}, at(@wallets, bech32($0)), %js::object), $2)}, at(ite({at(@wallets, bech32($0))}, at(@wallets, bech32($0)), %js::object), $2), 0) + uint($1))
effects at(@wallets, @ctx.user) = %js::object ;; at(@wallets, bech32($0)) = %js::object ;; at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2) = (-uint($1) + at(ite({at(@wallets, @ctx.user)}, at(@wallets, @ctx.user), %js::object), $2)) ;; at(ite({at(@wallets, bech32($0))}, at(@wallets, bech32($0)), %js::object), $2) = (ite({at(ite({at(@wallets, bech32($0))}, at(@wallets, bech32($0)), %js::object), $2)}, at(ite({at(@wallets, bech32($0))}, at(@wallets, bech32($0)), %js::object), $2), 0) + uint($1))
only ctor:js::object(…) ;; ctor:js::object(obj())
fn js::crypto_horse_race::_init_state
each @currency = null_
each @PRECISION = 1
each @TOKEN_SCALE = 1
each @activation_height = null_
each @wallets = obj()
each @balance = arr()
never throw …
exit {did @PRECISION = 1}
exit {did @TOKEN_SCALE = 1}
exit {did @activation_height = null_}
exit {did @balance = arr()}
exit {did @currency = null_}
exit {did @wallets = obj()}
at @currency = null_
at @PRECISION = 1
at @TOKEN_SCALE = 1
at @activation_height = null_
at @wallets = obj()
at @balance = arr()
effects @currency = null_ ;; @PRECISION = 1 ;; @TOKEN_SCALE = 1 ;; @activation_height = null_ ;; @wallets = obj() ;; @balance = arr()
fn js::crypto_horse_race::_methods
each method("calc_price", "const public")
each method("get_price", "const public")
each method("get_buy_price", "const public")
each method("get_sell_price", "const public")
each method("buy_horse", "payable public")
each method("sell_horse", "public")
each method("transfer", "public")
never throw …
exit {did method("calc_price", "const public")}
exit {did method("get_price", "const public")}
exit {did method("get_buy_price", "const public")}
exit {did method("get_sell_price", "const public")}
exit {did method("buy_horse", "payable public")}
exit {did method("sell_horse", "public")}
exit {did method("transfer", "public")}
only method(…, "…public…") ;; method("calc_price", "const public") ;; method("get_price", "const public") ;; method("get_buy_price", "const public") ;; method("get_sell_price", "const public") ;; method("buy_horse", "payable public") ;; method("sell_horse", "public") ;; method("transfer", "public")
never method(…, "…static…")
