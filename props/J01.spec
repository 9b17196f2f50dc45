tus src/contract/swap.js
fn js::swap::init
each @tokens = arr(bech32($0), bech32($1))
each %js::object.balance = arr(0, 0) ;; !{at(arr(bech32($0), bech32($1)), 0) == at(arr(bech32($0), bech32($1)), 1)}
each %js::object.user_total = arr(0, 0) ;; !{at(arr(bech32($0), bech32($1)), 0) == at(arr(bech32($0), bech32($1)), 1)}
each %js::object.fee_rate = elem(@fee_rates) ;; !{at(arr(bech32($0), bech32($1)), 0) == at(arr(bech32($0), bech32($1)), 1)}
each %js::object.fees_paid = arr(0, 0) ;; !{at(arr(bech32($0), bech32($1)), 0) == at(arr(bech32($0), bech32($1)), 1)}
each %js::object.fees_claimed = arr(0, 0) ;; !{at(arr(bech32($0), bech32($1)), 0) == at(arr(bech32($0), bech32($1)), 1)}
each push(@state, %js::object) ;; !{at(arr(bech32($0), bech32($1)), 0) == at(arr(bech32($0), bech32($1)), 1)}
never break(@fee_rates)
raise {at(arr(bech32($0), bech32($1)), 0) == at(arr(bech32($0), bech32($1)), 1)}
exit !{at(arr(bech32($0), bech32($1)), 0) == at(arr(bech32($0), bech32($1)), 1)}
exit {did %js::object.fee_rate = elem(@fee_rates)}
exit {did @tokens = arr(bech32($0), bech32($1))}
exit {did %js::object.balance = arr(0, 0)} | {empty(@fee_rates)}
exit {did %js::object.fees_claimed = arr(0, 0)} | {empty(@fee_rates)}
exit {did %js::object.fees_paid = arr(0, 0)} | {empty(@fee_rates)}
exit {did %js::object.user_total = arr(0, 0)} | {empty(@fee_rates)}
exit {did push(@state, %js::object)} | {empty(@fee_rates)}
at @tokens = arr(bech32($0), bech32($1))
at %js::object.balance = arr(0, 0)
at %js::object.user_total = arr(0, 0)
at %js::object.fee_rate = elem(@fee_rates)
at %js::object.fees_paid = arr(0, 0)
at %js::object.fees_claimed = arr(0, 0)
at push(@state, %js::object)
effects @tokens = arr(bech32($0), bech32($1)) ;; push(@state, %js::object)
only ctor:js::object(…) ;; ctor:js::object(obj())
fn js::swap::_get_earned_fees
each at(%js::object, idx(2)) = min((((-at($0.last_fees_paid, idx(2)) + at(at(@state, $0.pool_idx).fees_paid, idx(2))) * 2 * at($0.balance, idx(2))) / (at($0.last_user_total, idx(2)) + at(at(@state, $0.pool_idx).user_total, idx(2)))), (-at(at(@state, $0.pool_idx).fees_claimed, idx(2)) + at(at(@state, $0.pool_idx).fees_paid, idx(2)))) ;; {at($0.balance, idx(2))} ;; {at($0.last_fees_paid, idx(2)) < at(at(@state, $0.pool_idx).fees_paid, idx(2))}
never break(loop)
never throw …
exit {ret = %js::object}
exit !{at($0.balance, idx(2))} | !{at($0.last_fees_paid, idx(2)) < at(at(@state, $0.pool_idx).fees_paid, idx(2))} | {did at(%js::object, idx(2)) = min((((-at($0.last_fees_paid, idx(2)) + at(at(@state, $0.pool_idx).fees_paid, idx(2))) * 2 * at($0.balance, idx(2))) / (at($0.last_user_total, idx(2)) + at(at(@state, $0.pool_idx).user_total, idx(2)))), (-at(at(@state, $0.pool_idx).fees_claimed, idx(2)) + at(at(@state, $0.pool_idx).fees_paid, idx(2))))}
at at(%js::object, idx(2)) = min((((-at($0.last_fees_paid, idx(2)) + at(at(@state, $0.pool_idx).fees_paid, idx(2))) * 2 * at($0.balance, idx(2))) / (at($0.last_user_total, idx(2)) + at(at(@state, $0.pool_idx).user_total, idx(2)))), (-at(at(@state, $0.pool_idx).fees_claimed, idx(2)) + at(at(@state, $0.pool_idx).fees_paid, idx(2)))) ;; {at($0.balance, idx(2))} ;; {at($0.last_fees_paid, idx(2)) < at(at(@state, $0.pool_idx).fees_paid, idx(2))}
effects none
only ctor:js::object(…) ;; ctor:js::object(arr(0, 0))
fn js::swap::get_earned_fees
each at(%js::object, idx(2)) = min((((-at(at(@users, bech32($0)).last_fees_paid, idx(2)) + at(at(@state, at(@users, bech32($0)).pool_idx).fees_paid, idx(2))) * 2 * at(at(@users, bech32($0)).balance, idx(2))) / (at(at(@state, at(@users, bech32($0)).pool_idx).user_total, idx(2)) + at(at(@users, bech32($0)).last_user_total, idx(2)))), (-at(at(@state, at(@users, bech32($0)).pool_idx).fees_claimed, idx(2)) + at(at(@state, at(@users, bech32($0)).pool_idx).fees_paid, idx(2)))) ;; {at(@users, bech32($0))} ;; {at(at(@users, bech32($0)).balance, idx(2))} ;; {at(at(@users, bech32($0)).last_fees_paid, idx(2)) < at(at(@state, at(@users, bech32($0)).pool_idx).fees_paid, idx(2))}
never break(loop)
raise !{at(@users, bech32($0))}
exit {at(@users, bech32($0))}
exit {ret = %js::object}
exit !{at(at(@users, bech32($0)).balance, idx(2))} | !{at(at(@users, bech32($0)).last_fees_paid, idx(2)) < at(at(@state, at(@users, bech32($0)).pool_idx).fees_paid, idx(2))} | {did at(%js::object, idx(2)) = min((((-at(at(@users, bech32($0)).last_fees_paid, idx(2)) + at(at(@state, at(@users, bech32($0)).pool_idx).fees_paid, idx(2))) * 2 * at(at(@users, bech32($0)).balance, idx(2))) / (at(at(@state, at(@users, bech32($0)).pool_idx).user_total, idx(2)) + at(at(@users, bech32($0)).last_user_total, idx(2)))), (-at(at(@state, at(@users, bech32($0)).pool_idx).fees_claimed, idx(2)) + at(at(@state, at(@users, bech32($0)).pool_idx).fees_paid, idx(2))))}
at at(%js::object, idx(2)) = min((((-at(at(@users, bech32($0)).last_fees_paid, idx(2)) + at(at(@state, at(@users, bech32($0)).pool_idx).fees_paid, idx(2))) * 2 * at(at(@users, bech32($0)).balance, idx(2))) / (at(at(@state, at(@users, bech32($0)).pool_idx).user_total, idx(2)) + at(at(@users, bech32($0)).last_user_total, idx(2)))), (-at(at(@state, at(@users, bech32($0)).pool_idx).fees_claimed, idx(2)) + at(at(@state, at(@users, bech32($0)).pool_idx).fees_paid, idx(2)))) ;; {at(at(@users, bech32($0)).balance, idx(2))} ;; {at(at(@users, bech32($0)).last_fees_paid, idx(2)) < at(at(@state, at(@users, bech32($0)).pool_idx).fees_paid, idx(2))}
effects none
only ctor:js::object(…) ;; ctor:js::object(arr(0, 0))
fn js::swap::payout
each at(%js::object, idx(2)) = min((((-at(at(@users, @ctx.user).last_fees_paid, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))) * 2 * at(at(@users, @ctx.user).balance, idx(2))) / (at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) + at(at(@users, @ctx.user).last_user_total, idx(2)))), (-at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2)))) ;; {at(@users, @ctx.user)} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; {at(at(@users, @ctx.user).last_fees_paid, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))}
each at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2))) ;; {at(@users, @ctx.user)} ;; {at(%js::object, idx(2))}
each send(@ctx.user, at(%js::object, idx(2)), at(@tokens, idx(2)), "mmx_swap_payout") ;; {at(@users, @ctx.user)} ;; {at(%js::object, idx(2))}
each at(at(@users, @ctx.user).last_fees_paid, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2)) ;; {at(@users, @ctx.user)}
each at(at(@users, @ctx.user).last_user_total, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) ;; {at(@users, @ctx.user)}
never break(loop)
raise !{at(@users, @ctx.user)}
exit {at(@users, @ctx.user)}
exit {did at(at(@users, @ctx.user).last_fees_paid, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))}
exit {did at(at(@users, @ctx.user).last_user_total, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}
exit {ret = %js::object}
exit !{at(%js::object, idx(2))} | {did at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)))}
exit !{at(%js::object, idx(2))} | {did send(@ctx.user, at(%js::object, idx(2)), at(@tokens, idx(2)), "mmx_swap_payout")}
exit !{at(at(@users, @ctx.user).balance, idx(2))} | !{at(at(@users, @ctx.user).last_fees_paid, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))} | {did at(%js::object, idx(2)) = min((((-at(at(@users, @ctx.user).last_fees_paid, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))) * 2 * at(at(@users, @ctx.user).balance, idx(2))) / (at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) + at(at(@users, @ctx.user).last_user_total, idx(2)))), (-at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))))}
at at(%js::object, idx(2)) = min((((-at(at(@users, @ctx.user).last_fees_paid, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))) * 2 * at(at(@users, @ctx.user).balance, idx(2))) / (at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) + at(at(@users, @ctx.user).last_user_total, idx(2)))), (-at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2)))) ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; {at(at(@users, @ctx.user).last_fees_paid, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))}
at at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2))) ;; {at(%js::object, idx(2))}
at send(@ctx.user, at(%js::object, idx(2)), at(@tokens, idx(2)), "mmx_swap_payout") ;; {at(%js::object, idx(2))}
at at(at(@users, @ctx.user).last_fees_paid, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))
at at(at(@users, @ctx.user).last_user_total, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))
effects at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2))) ;; send(@ctx.user, at(%js::object, idx(2)), at(@tokens, idx(2)), "mmx_swap_payout") ;; at(at(@users, @ctx.user).last_fees_paid, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2)) ;; at(at(@users, @ctx.user).last_user_total, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))
only ctor:js::object(…) ;; ctor:js::object(arr(0, 0))
fn js::swap::add_liquid
each %js::object.pool_idx = $1 ;; !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {$1 < size(@state)} ;; {at(@users, @ctx.user) == null_}
each %js::object.balance = arr(0, 0) ;; !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {$1 < size(@state)} ;; {at(@users, @ctx.user) == null_}
each %js::object.last_fees_paid = arr(0, 0) ;; !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {$1 < size(@state)} ;; {at(@users, @ctx.user) == null_}
each %js::object.last_user_total = arr(0, 0) ;; !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {$1 < size(@state)} ;; {at(@users, @ctx.user) == null_}
each at(@users, @ctx.user) = %js::object ;; !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {$1 < size(@state)} ;; {at(@users, @ctx.user) == null_}
each at(%js::object, idx(2)) = min((((-at(at(@users, @ctx.user).last_fees_paid, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))) * 2 * at(at(@users, @ctx.user).balance, idx(2))) / (at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) + at(at(@users, @ctx.user).last_user_total, idx(2)))), (-at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2)))) ;; !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {$1 < size(@state)} ;; !{at(@users, @ctx.user) == null_} ;; {at(at(@users, @ctx.user).balance, 0)} | {at(at(@users, @ctx.user).balance, 1)} ;; {$1 == at(@users, @ctx.user).pool_idx} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; {at(at(@users, @ctx.user).last_fees_paid, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))}
each at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2))) ;; !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {$1 < size(@state)} ;; !{at(@users, @ctx.user) == null_} ;; {at(at(@users, @ctx.user).balance, 0)} | {at(at(@users, @ctx.user).balance, 1)} ;; {$1 == at(@users, @ctx.user).pool_idx} ;; {at(%js::object, idx(2))}
each send(@ctx.user, at(%js::object, idx(2)), at(@tokens, idx(2)), "mmx_swap_payout") ;; !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {$1 < size(@state)} ;; !{at(@users, @ctx.user) == null_} ;; {at(at(@users, @ctx.user).balance, 0)} | {at(at(@users, @ctx.user).balance, 1)} ;; {$1 == at(@users, @ctx.user).pool_idx} ;; {at(%js::object, idx(2))}
each at(at(@users, @ctx.user).last_fees_paid, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2)) ;; !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {$1 < size(@state)} ;; !{at(@users, @ctx.user) == null_} ;; {at(at(@users, @ctx.user).balance, 0)} | {at(at(@users, @ctx.user).balance, 1)} ;; {$1 == at(@users, @ctx.user).pool_idx}
each at(at(@users, @ctx.user).last_user_total, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) ;; !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {$1 < size(@state)} ;; !{at(@users, @ctx.user) == null_} ;; {at(at(@users, @ctx.user).balance, 0)} | {at(at(@users, @ctx.user).balance, 1)} ;; {$1 == at(@users, @ctx.user).pool_idx}
each at(@users, @ctx.user).pool_idx = $1 ;; !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {$1 < size(@state)} ;; !{at(@users, @ctx.user) == null_}
each at(at(@state, $1).balance, $0) = (@ctx.deposit.amount + at(at(@state, $1).balance, $0)) ;; !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {$1 < size(@state)}
each at(at(@state, $1).user_total, $0) = (@ctx.deposit.amount + at(at(@state, $1).user_total, $0)) ;; !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {$1 < size(@state)}
each at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).last_fees_paid, idx(2)) = at(at(@state, $1).fees_paid, idx(2)) ;; !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {$1 < size(@state)}
each at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).last_user_total, idx(2)) = at(at(@state, $1).user_total, idx(2)) ;; !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {$1 < size(@state)}
each at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).balance, $0) = (@ctx.deposit.amount + at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).balance, $0)) ;; !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {$1 < size(@state)}
each ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).unlock_height = (@ctx.height + 8640) ;; !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {$1 < size(@state)}
never break(loop)
raise {1 < $0}
raise !{1 < $0} ;; !{@ctx.deposit.currency == at(@tokens, $0)}
raise !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {1 < $0}
raise !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; !{$1 < size(@state)}
raise !{1 < $0} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {$1 < size(@state)} ;; !{at(@users, @ctx.user) == null_} ;; {at(at(@users, @ctx.user).balance, 0)} | {at(at(@users, @ctx.user).balance, 1)} ;; !{$1 == at(@users, @ctx.user).pool_idx}
exit !{1 < $0}
exit {$1 < size(@state)}
exit {@ctx.deposit.currency == at(@tokens, $0)}
exit {did at(at(@state, $1).balance, $0) = (@ctx.deposit.amount + at(at(@state, $1).balance, $0))}
exit {did at(at(@state, $1).user_total, $0) = (@ctx.deposit.amount + at(at(@state, $1).user_total, $0))}
exit {did at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).balance, $0) = (@ctx.deposit.amount + at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).balance, $0))}
exit {did at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).last_fees_paid, idx(2)) = at(at(@state, $1).fees_paid, idx(2))}
exit {did at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).last_user_total, idx(2)) = at(at(@state, $1).user_total, idx(2))}
exit {did ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).unlock_height = (@ctx.height + 8640)}
exit !{at(@users, @ctx.user) == null_} | {did %js::object.balance = arr(0, 0)}
exit !{at(@users, @ctx.user) == null_} | {did %js::object.last_fees_paid = arr(0, 0)}
exit !{at(@users, @ctx.user) == null_} | {did %js::object.last_user_total = arr(0, 0)}
exit !{at(@users, @ctx.user) == null_} | {did %js::object.pool_idx = $1}
exit !{at(@users, @ctx.user) == null_} | {did at(@users, @ctx.user) = %js::object}
exit {at(@users, @ctx.user) == null_} | {did at(@users, @ctx.user).pool_idx = $1}
exit !{at(at(@users, @ctx.user).balance, 0)} | {$1 == at(@users, @ctx.user).pool_idx} | {at(@users, @ctx.user) == null_}
exit !{at(at(@users, @ctx.user).balance, 0)} | {at(@users, @ctx.user) == null_} | {did at(at(@users, @ctx.user).last_fees_paid, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))}
exit !{at(at(@users, @ctx.user).balance, 0)} | {at(@users, @ctx.user) == null_} | {did at(at(@users, @ctx.user).last_user_total, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}
exit !{at(at(@users, @ctx.user).balance, 1)} | {$1 == at(@users, @ctx.user).pool_idx} | {at(@users, @ctx.user) == null_}
exit !{at(at(@users, @ctx.user).balance, 1)} | {at(@users, @ctx.user) == null_} | {did at(at(@users, @ctx.user).last_fees_paid, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))}
exit !{at(at(@users, @ctx.user).balance, 1)} | {at(@users, @ctx.user) == null_} | {did at(at(@users, @ctx.user).last_user_total, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}
exit !{at(%js::object, idx(2))} | !{at(at(@users, @ctx.user).balance, 0)} | {at(@users, @ctx.user) == null_} | {did at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)))}
exit !{at(%js::object, idx(2))} | !{at(at(@users, @ctx.user).balance, 0)} | {at(@users, @ctx.user) == null_} | {did send(@ctx.user, at(%js::object, idx(2)), at(@tokens, idx(2)), "mmx_swap_payout")}
exit !{at(%js::object, idx(2))} | !{at(at(@users, @ctx.user).balance, 1)} | {at(@users, @ctx.user) == null_} | {did at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)))}
exit !{at(%js::object, idx(2))} | !{at(at(@users, @ctx.user).balance, 1)} | {at(@users, @ctx.user) == null_} | {did send(@ctx.user, at(%js::object, idx(2)), at(@tokens, idx(2)), "mmx_swap_payout")}
exit !{at(at(@users, @ctx.user).balance, 0)} | !{at(at(@users, @ctx.user).balance, idx(2))} | !{at(at(@users, @ctx.user).last_fees_paid, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))} | {at(@users, @ctx.user) == null_} | {did at(%js::object, idx(2)) = min((((-at(at(@users, @ctx.user).last_fees_paid, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))) * 2 * at(at(@users, @ctx.user).balance, idx(2))) / (at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) + at(at(@users, @ctx.user).last_user_total, idx(2)))), (-at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))))}
exit !{at(at(@users, @ctx.user).balance, 1)} | !{at(at(@users, @ctx.user).balance, idx(2))} | !{at(at(@users, @ctx.user).last_fees_paid, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))} | {at(@users, @ctx.user) == null_} | {did at(%js::object, idx(2)) = min((((-at(at(@users, @ctx.user).last_fees_paid, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))) * 2 * at(at(@users, @ctx.user).balance, idx(2))) / (at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) + at(at(@users, @ctx.user).last_user_total, idx(2)))), (-at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))))}
at %js::object.pool_idx = $1 ;; {at(@users, @ctx.user) == null_}
at %js::object.balance = arr(0, 0) ;; {at(@users, @ctx.user) == null_}
at %js::object.last_fees_paid = arr(0, 0) ;; {at(@users, @ctx.user) == null_}
at %js::object.last_user_total = arr(0, 0) ;; {at(@users, @ctx.user) == null_}
at at(@users, @ctx.user) = %js::object ;; {at(@users, @ctx.user) == null_}
at at(%js::object, idx(2)) = min((((-at(at(@users, @ctx.user).last_fees_paid, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))) * 2 * at(at(@users, @ctx.user).balance, idx(2))) / (at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) + at(at(@users, @ctx.user).last_user_total, idx(2)))), (-at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2)))) ;; !{at(@users, @ctx.user) == null_} ;; {at(at(@users, @ctx.user).balance, 0)} | {at(at(@users, @ctx.user).balance, 1)} ;; {$1 == at(@users, @ctx.user).pool_idx} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; {at(at(@users, @ctx.user).last_fees_paid, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))}
at at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2))) ;; !{at(@users, @ctx.user) == null_} ;; {at(at(@users, @ctx.user).balance, 0)} | {at(at(@users, @ctx.user).balance, 1)} ;; {$1 == at(@users, @ctx.user).pool_idx} ;; {at(%js::object, idx(2))}
at send(@ctx.user, at(%js::object, idx(2)), at(@tokens, idx(2)), "mmx_swap_payout") ;; !{at(@users, @ctx.user) == null_} ;; {at(at(@users, @ctx.user).balance, 0)} | {at(at(@users, @ctx.user).balance, 1)} ;; {$1 == at(@users, @ctx.user).pool_idx} ;; {at(%js::object, idx(2))}
at at(at(@users, @ctx.user).last_fees_paid, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2)) ;; !{at(@users, @ctx.user) == null_} ;; {at(at(@users, @ctx.user).balance, 0)} | {at(at(@users, @ctx.user).balance, 1)} ;; {$1 == at(@users, @ctx.user).pool_idx}
at at(at(@users, @ctx.user).last_user_total, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) ;; !{at(@users, @ctx.user) == null_} ;; {at(at(@users, @ctx.user).balance, 0)} | {at(at(@users, @ctx.user).balance, 1)} ;; {$1 == at(@users, @ctx.user).pool_idx}
at at(@users, @ctx.user).pool_idx = $1 ;; !{at(@users, @ctx.user) == null_}
at at(at(@state, $1).balance, $0) = (@ctx.deposit.amount + at(at(@state, $1).balance, $0))
at at(at(@state, $1).user_total, $0) = (@ctx.deposit.amount + at(at(@state, $1).user_total, $0))
at at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).last_fees_paid, idx(2)) = at(at(@state, $1).fees_paid, idx(2))
at at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).last_user_total, idx(2)) = at(at(@state, $1).user_total, idx(2))
at at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).balance, $0) = (@ctx.deposit.amount + at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).balance, $0))
at ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).unlock_height = (@ctx.height + 8640)
effects at(@users, @ctx.user) = %js::object ;; at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2))) ;; send(@ctx.user, at(%js::object, idx(2)), at(@tokens, idx(2)), "mmx_swap_payout") ;; at(at(@users, @ctx.user).last_fees_paid, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2)) ;; at(at(@users, @ctx.user).last_user_total, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) ;; at(@users, @ctx.user).pool_idx = $1 ;; at(at(@state, $1).balance, $0) = (@ctx.deposit.amount + at(at(@state, $1).balance, $0)) ;; at(at(@state, $1).user_total, $0) = (@ctx.deposit.amount + at(at(@state, $1).user_total, $0)) ;; at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).last_fees_paid, idx(2)) = at(at(@state, $1).fees_paid, idx(2)) ;; at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).last_user_total, idx(2)) = at(at(@state, $1).user_total, idx(2)) ;; at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).balance, $0) = (@ctx.deposit.amount + at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).balance, $0)) ;; ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).unlock_height = (@ctx.height + 8640)
only ctor:js::object(…) ;; ctor:js::object(obj()) ;; ctor:js::object(arr(0, 0))
fn js::swap::rem_liquid
each send(@ctx.user, ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} && {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))}), uint($1), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))), at(@tokens, $0), "mmx_swap_rem_liquid") ;; !{1 < $0} ;; {uint($1)} ;; {at(@users, @ctx.user)} ;; !{at(at(@users, @ctx.user).balance, $0) < uint($1)} ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} | {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))} ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} | {uint($1)} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} | {uint($1)} ;; !{$2}
each at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) = (-ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} && {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))}), uint($1), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0)) ;; !{1 < $0} ;; {uint($1)} ;; {at(@users, @ctx.user)} ;; !{at(at(@users, @ctx.user).balance, $0) < uint($1)} ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} | {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))} ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} | {uint($1)} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} | {uint($1)}
each send(@ctx.user, (((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)), at(@tokens, (($0 + 1) % 2)), "mmx_swap_rem_liquid_trade") ;; !{1 < $0} ;; {uint($1)} ;; {at(@users, @ctx.user)} ;; !{at(at(@users, @ctx.user).balance, $0) < uint($1)} ;; {at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} ;; {at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))} ;; {(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} ;; !{$2}
each at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) = (-(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) ;; !{1 < $0} ;; {uint($1)} ;; {at(@users, @ctx.user)} ;; !{at(at(@users, @ctx.user).balance, $0) < uint($1)} ;; {at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} ;; {at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))} ;; {(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))}
each at(at(@users, @ctx.user).balance, $0) = (-uint($1) + at(at(@users, @ctx.user).balance, $0)) ;; !{1 < $0} ;; {uint($1)} ;; {at(@users, @ctx.user)} ;; !{at(at(@users, @ctx.user).balance, $0) < uint($1)}
each at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0) = (-uint($1) + at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)) ;; !{1 < $0} ;; {uint($1)} ;; {at(@users, @ctx.user)} ;; !{at(at(@users, @ctx.user).balance, $0) < uint($1)}
each at(%js::object, $0) = ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} && {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))}), uint($1), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))) ;; !{1 < $0} ;; {uint($1)} ;; {at(@users, @ctx.user)} ;; !{at(at(@users, @ctx.user).balance, $0) < uint($1)}
each at(%js::object, (($0 + 1) % 2)) = ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} || !{at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))}), 0, (((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))) ;; !{1 < $0} ;; {uint($1)} ;; {at(@users, @ctx.user)} ;; !{at(at(@users, @ctx.user).balance, $0) < uint($1)}
raise {1 < $0}
raise !{1 < $0} ;; !{uint($1)}
raise !{1 < $0} ;; {uint($1)} ;; !{at(@users, @ctx.user)}
raise !{1 < $0} ;; {uint($1)} ;; {at(@users, @ctx.user)} ;; !{$2} ;; {@ctx.height < at(@users, @ctx.user).unlock_height}
raise !{1 < $0} ;; {uint($1)} ;; {at(@users, @ctx.user)} ;; {at(at(@users, @ctx.user).balance, $0) < uint($1)}
raise !{1 < $0} ;; {uint($1)} ;; {at(@users, @ctx.user)} ;; !{at(at(@users, @ctx.user).balance, $0) < uint($1)} ;; {1 < $0}
exit !{1 < $0}
exit !{at(at(@users, @ctx.user).balance, $0) < uint($1)}
exit {at(@users, @ctx.user)}
exit {did at(%js::object, $0) = ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} && {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))}), uint($1), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)))}
exit {did at(%js::object, (($0 + 1) % 2)) = ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} || !{at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))}), 0, (((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)))}
exit {did at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0) = (-uint($1) + at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))}
exit {did at(at(@users, @ctx.user).balance, $0) = (-uint($1) + at(at(@users, @ctx.user).balance, $0))}
exit {ret = %js::object}
exit {uint($1)}
exit !{@ctx.height < at(@users, @ctx.user).unlock_height} | {$2}
exit !{((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} | !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} | {did at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) = (-ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} && {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))}), uint($1), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0))}
exit !{((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))} | {did at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) = (-ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} && {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))}), uint($1), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0))}
exit !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} | {did at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) = (-ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} && {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))}), uint($1), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0))}
exit !{(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} | !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} | !{at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))} | {did at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) = (-(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)))}
exit !{((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} | !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} | {$2} | {did send(@ctx.user, ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} && {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))}), uint($1), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))), at(@tokens, $0), "mmx_swap_rem_liquid")}
exit !{((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} | {$2} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))} | {did send(@ctx.user, ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} && {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))}), uint($1), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))), at(@tokens, $0), "mmx_swap_rem_liquid")}
exit !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))} | {$2} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} | {did send(@ctx.user, ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} && {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))}), uint($1), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))), at(@tokens, $0), "mmx_swap_rem_liquid")}
exit !{(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} | !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} | !{at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))} | {$2} | {did send(@ctx.user, (((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)), at(@tokens, (($0 + 1) % 2)), "mmx_swap_rem_liquid_trade")}
at send(@ctx.user, ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} && {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))}), uint($1), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))), at(@tokens, $0), "mmx_swap_rem_liquid") ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} | {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))} ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} | {uint($1)} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} | {uint($1)} ;; !{$2}
at at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) = (-ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} && {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))}), uint($1), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0)) ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} | {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))} ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} | {uint($1)} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} | {uint($1)}
at send(@ctx.user, (((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)), at(@tokens, (($0 + 1) % 2)), "mmx_swap_rem_liquid_trade") ;; {at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} ;; {at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))} ;; {(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))} ;; !{$2}
at at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) = (-(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) ;; {at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} ;; {at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))} ;; {(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))}
at at(at(@users, @ctx.user).balance, $0) = (-uint($1) + at(at(@users, @ctx.user).balance, $0))
at at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0) = (-uint($1) + at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))
at at(%js::object, $0) = ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} && {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))}), uint($1), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)))
at at(%js::object, (($0 + 1) % 2)) = ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} || !{at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))}), 0, (((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)))
effects send(@ctx.user, ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} && {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))}), uint($1), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))), at(@tokens, $0), "mmx_swap_rem_liquid") ;; at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) = (-ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)} && {at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2))}), uint($1), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, $0)) ;; send(@ctx.user, (((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)), at(@tokens, (($0 + 1) % 2)), "mmx_swap_rem_liquid_trade") ;; at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2)) = (-(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, (($0 + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) * uint($1)) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, (($0 + 1) % 2))) ;; at(at(@users, @ctx.user).balance, $0) = (-uint($1) + at(at(@users, @ctx.user).balance, $0)) ;; at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0) = (-uint($1) + at(at(@state, at(@users, @ctx.user).pool_idx).user_total, $0))
only ctor:js::object(…) ;; ctor:js::object(arr(0, 0))
fn js::swap::rem_all_liquid
each at(%js::object, idx(2)) = min((((-at(at(@users, @ctx.user).last_fees_paid, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))) * 2 * at(at(@users, @ctx.user).balance, idx(2))) / (at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) + at(at(@users, @ctx.user).last_user_total, idx(2)))), (-at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2)))) ;; {at(@users, @ctx.user)} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; {at(at(@users, @ctx.user).last_fees_paid, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))}
each at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2))) ;; {at(@users, @ctx.user)} ;; {at(%js::object, idx(2))}
each send(@ctx.user, at(%js::object, idx(2)), at(@tokens, idx(2)), "mmx_swap_payout") ;; {at(@users, @ctx.user)} ;; {at(%js::object, idx(2))}
each at(at(@users, @ctx.user).last_fees_paid, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2)) ;; {at(@users, @ctx.user)}
each at(at(@users, @ctx.user).last_user_total, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) ;; {at(@users, @ctx.user)}
each send(@ctx.user, ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), uint(at(at(@users, @ctx.user).balance, idx(2)))), at(@tokens, idx(2)), "mmx_swap_rem_liquid") ;; {at(@users, @ctx.user)} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@users, @ctx.user).balance, idx(2)) < uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} | {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} | {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{$0}
each at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) = (-ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), uint(at(at(@users, @ctx.user).balance, idx(2)))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2))) ;; {at(@users, @ctx.user)} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@users, @ctx.user).balance, idx(2)) < uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} | {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} | {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | {uint(at(at(@users, @ctx.user).balance, idx(2)))}
each send(@ctx.user, (((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), at(@tokens, ((idx(2) + 1) % 2)), "mmx_swap_rem_liquid_trade") ;; {at(@users, @ctx.user)} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@users, @ctx.user).balance, idx(2)) < uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} ;; {at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))} ;; {(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} ;; !{$0}
each at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) = (-(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) ;; {at(@users, @ctx.user)} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@users, @ctx.user).balance, idx(2)) < uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} ;; {at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))} ;; {(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))}
each at(at(@users, @ctx.user).balance, idx(2)) = (-uint(at(at(@users, @ctx.user).balance, idx(2))) + at(at(@users, @ctx.user).balance, idx(2))) ;; {at(@users, @ctx.user)} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@users, @ctx.user).balance, idx(2)) < uint(at(at(@users, @ctx.user).balance, idx(2)))}
each at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) = (-uint(at(at(@users, @ctx.user).balance, idx(2))) + at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))) ;; {at(@users, @ctx.user)} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@users, @ctx.user).balance, idx(2)) < uint(at(at(@users, @ctx.user).balance, idx(2)))}
each at(%js::object, idx(2)) = ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), uint(at(at(@users, @ctx.user).balance, idx(2)))) ;; {at(@users, @ctx.user)} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@users, @ctx.user).balance, idx(2)) < uint(at(at(@users, @ctx.user).balance, idx(2)))}
each at(%js::object, ((idx(2) + 1) % 2)) = ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} || !{at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))}), 0, (((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))) ;; {at(@users, @ctx.user)} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@users, @ctx.user).balance, idx(2)) < uint(at(at(@users, @ctx.user).balance, idx(2)))}
each at(%js::object, idx(2)) = (2*at(%js::object, idx(2))) ;; {at(@users, @ctx.user)} ;; {at(at(@users, @ctx.user).balance, idx(2))}
never break(loop)
raise !{at(@users, @ctx.user)}
raise {at(@users, @ctx.user)} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; {1 < idx(2)}
raise {at(@users, @ctx.user)} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; !{uint(at(at(@users, @ctx.user).balance, idx(2)))}
raise {at(@users, @ctx.user)} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(@users, @ctx.user)}
raise {at(@users, @ctx.user)} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{$0} ;; {@ctx.height < at(@users, @ctx.user).unlock_height}
raise {at(@users, @ctx.user)} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; {at(at(@users, @ctx.user).balance, idx(2)) < uint(at(at(@users, @ctx.user).balance, idx(2)))}
raise {at(@users, @ctx.user)} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@users, @ctx.user).balance, idx(2)) < uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; {1 < idx(2)}
exit {at(@users, @ctx.user)}
exit {did at(at(@users, @ctx.user).last_fees_paid, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))}
exit {did at(at(@users, @ctx.user).last_user_total, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}
exit {ret = %js::object}
exit !{1 < idx(2)} | !{at(at(@users, @ctx.user).balance, idx(2))}
exit !{at(%js::object, idx(2))} | {did at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)))}
exit !{at(%js::object, idx(2))} | {did send(@ctx.user, at(%js::object, idx(2)), at(@tokens, idx(2)), "mmx_swap_payout")}
exit !{at(at(@users, @ctx.user).balance, idx(2)) < uint(at(at(@users, @ctx.user).balance, idx(2)))} | !{at(at(@users, @ctx.user).balance, idx(2))}
exit !{at(at(@users, @ctx.user).balance, idx(2))} | {did at(%js::object, ((idx(2) + 1) % 2)) = ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} || !{at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))}), 0, (((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))))}
exit !{at(at(@users, @ctx.user).balance, idx(2))} | {did at(%js::object, idx(2)) = (2*at(%js::object, idx(2)))}
exit !{at(at(@users, @ctx.user).balance, idx(2))} | {did at(%js::object, idx(2)) = ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), uint(at(at(@users, @ctx.user).balance, idx(2))))}
exit !{at(at(@users, @ctx.user).balance, idx(2))} | {did at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) = (-uint(at(at(@users, @ctx.user).balance, idx(2))) + at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))}
exit !{at(at(@users, @ctx.user).balance, idx(2))} | {did at(at(@users, @ctx.user).balance, idx(2)) = (-uint(at(at(@users, @ctx.user).balance, idx(2))) + at(at(@users, @ctx.user).balance, idx(2)))}
exit !{at(at(@users, @ctx.user).balance, idx(2))} | {uint(at(at(@users, @ctx.user).balance, idx(2)))}
exit !{@ctx.height < at(@users, @ctx.user).unlock_height} | !{at(at(@users, @ctx.user).balance, idx(2))} | {$0}
exit !{at(at(@users, @ctx.user).balance, idx(2))} | !{at(at(@users, @ctx.user).last_fees_paid, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))} | {did at(%js::object, idx(2)) = min((((-at(at(@users, @ctx.user).last_fees_paid, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))) * 2 * at(at(@users, @ctx.user).balance, idx(2))) / (at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) + at(at(@users, @ctx.user).last_user_total, idx(2)))), (-at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))))}
exit !{((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} | !{at(at(@users, @ctx.user).balance, idx(2))} | {did at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) = (-ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), uint(at(at(@users, @ctx.user).balance, idx(2)))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)))}
exit !{((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | !{at(at(@users, @ctx.user).balance, idx(2))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} | {did at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) = (-ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), uint(at(at(@users, @ctx.user).balance, idx(2)))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)))}
exit !{(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} | !{at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))} | !{at(at(@users, @ctx.user).balance, idx(2))} | {did at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) = (-(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)))}
exit !{((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} | !{at(at(@users, @ctx.user).balance, idx(2))} | {$0} | {did send(@ctx.user, ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), uint(at(at(@users, @ctx.user).balance, idx(2)))), at(@tokens, idx(2)), "mmx_swap_rem_liquid")}
exit !{((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | !{at(at(@users, @ctx.user).balance, idx(2))} | {$0} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} | {did send(@ctx.user, ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), uint(at(at(@users, @ctx.user).balance, idx(2)))), at(@tokens, idx(2)), "mmx_swap_rem_liquid")}
exit !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} | !{at(at(@users, @ctx.user).balance, idx(2))} | !{uint(at(at(@users, @ctx.user).balance, idx(2)))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} | {did at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) = (-ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), uint(at(at(@users, @ctx.user).balance, idx(2)))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)))}
at at(%js::object, idx(2)) = min((((-at(at(@users, @ctx.user).last_fees_paid, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))) * 2 * at(at(@users, @ctx.user).balance, idx(2))) / (at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) + at(at(@users, @ctx.user).last_user_total, idx(2)))), (-at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2)))) ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; {at(at(@users, @ctx.user).last_fees_paid, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))}
at at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2))) ;; {at(%js::object, idx(2))}
at send(@ctx.user, at(%js::object, idx(2)), at(@tokens, idx(2)), "mmx_swap_payout") ;; {at(%js::object, idx(2))}
at at(at(@users, @ctx.user).last_fees_paid, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))
at at(at(@users, @ctx.user).last_user_total, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))
at send(@ctx.user, ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), uint(at(at(@users, @ctx.user).balance, idx(2)))), at(@tokens, idx(2)), "mmx_swap_rem_liquid") ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@users, @ctx.user).balance, idx(2)) < uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{1 < idx(2)} ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} | {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} | {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{$0}
at at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) = (-ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), uint(at(at(@users, @ctx.user).balance, idx(2)))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2))) ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@users, @ctx.user).balance, idx(2)) < uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{1 < idx(2)} ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} | {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} | {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | {uint(at(at(@users, @ctx.user).balance, idx(2)))}
at send(@ctx.user, (((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), at(@tokens, ((idx(2) + 1) % 2)), "mmx_swap_rem_liquid_trade") ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@users, @ctx.user).balance, idx(2)) < uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{1 < idx(2)} ;; {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} ;; {at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))} ;; {(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} ;; !{$0}
at at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) = (-(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@users, @ctx.user).balance, idx(2)) < uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{1 < idx(2)} ;; {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} ;; {at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))} ;; {(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))}
at at(at(@users, @ctx.user).balance, idx(2)) = (-uint(at(at(@users, @ctx.user).balance, idx(2))) + at(at(@users, @ctx.user).balance, idx(2))) ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@users, @ctx.user).balance, idx(2)) < uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{1 < idx(2)}
at at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) = (-uint(at(at(@users, @ctx.user).balance, idx(2))) + at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))) ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@users, @ctx.user).balance, idx(2)) < uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{1 < idx(2)}
at at(%js::object, idx(2)) = ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), uint(at(at(@users, @ctx.user).balance, idx(2)))) ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@users, @ctx.user).balance, idx(2)) < uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{1 < idx(2)}
at at(%js::object, ((idx(2) + 1) % 2)) = ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} || !{at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))}), 0, (((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))) ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{at(at(@users, @ctx.user).balance, idx(2)) < uint(at(at(@users, @ctx.user).balance, idx(2)))} ;; !{1 < idx(2)}
at at(%js::object, idx(2)) = (2*at(%js::object, idx(2))) ;; {at(at(@users, @ctx.user).balance, idx(2))}
effects at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2))) ;; send(@ctx.user, at(%js::object, idx(2)), at(@tokens, idx(2)), "mmx_swap_payout") ;; at(at(@users, @ctx.user).last_fees_paid, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2)) ;; at(at(@users, @ctx.user).last_user_total, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) ;; send(@ctx.user, ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), uint(at(at(@users, @ctx.user).balance, idx(2)))), at(@tokens, idx(2)), "mmx_swap_rem_liquid") ;; at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) = (-ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), uint(at(at(@users, @ctx.user).balance, idx(2)))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2))) ;; send(@ctx.user, (((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), at(@tokens, ((idx(2) + 1) % 2)), "mmx_swap_rem_liquid_trade") ;; at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) = (-(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * uint(at(at(@users, @ctx.user).balance, idx(2)))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) ;; at(at(@users, @ctx.user).balance, idx(2)) = (-uint(at(at(@users, @ctx.user).balance, idx(2))) + at(at(@users, @ctx.user).balance, idx(2))) ;; at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) = (-uint(at(at(@users, @ctx.user).balance, idx(2))) + at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))
only ctor:js::object(…) ;; ctor:js::object(arr(0, 0))
fn js::swap::switch_pool
each at(%js::object, idx(2)) = min((((-at(at(@users, @ctx.user).last_fees_paid, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))) * 2 * at(at(@users, @ctx.user).balance, idx(2))) / (at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) + at(at(@users, @ctx.user).last_user_total, idx(2)))), (-at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2)))) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; {at(at(@users, @ctx.user).last_fees_paid, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))}
each at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2))) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))}
each send(@ctx.user, at(%js::object, idx(2)), at(@tokens, idx(2)), "mmx_swap_payout") ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))}
each at(at(@users, @ctx.user).last_fees_paid, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2)) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height}
each at(at(@users, @ctx.user).last_user_total, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height}
each at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) = (-ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), at(at(@users, @ctx.user).balance, idx(2))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2))) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} | {at(at(@users, @ctx.user).balance, idx(2))} ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} | {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | {at(at(@users, @ctx.user).balance, idx(2))}
each at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) = (-(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} ;; {at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))} ;; {(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))}
each at(at(@users, @ctx.user).balance, idx(2)) = 0 ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)}
each at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) = (-at(at(@users, @ctx.user).balance, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)}
each at(%js::object, idx(2)) = ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), at(at(@users, @ctx.user).balance, idx(2))) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)}
each at(%js::object, ((idx(2) + 1) % 2)) = ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} || !{at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))}), 0, (((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)}
each at(%js::object, 0) = (at(%js::object, 0) + at(%js::object, 0)) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(at(@users, @ctx.user).balance, idx(2))}
each at(%js::object, 1) = (at(%js::object, 1) + at(%js::object, 1)) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(at(@users, @ctx.user).balance, idx(2))}
each %js::object.pool_idx = $0 ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)} ;; {at(@users, @ctx.user) == null_}
each %js::object.balance = arr(0, 0) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)} ;; {at(@users, @ctx.user) == null_}
each %js::object.last_fees_paid = arr(0, 0) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)} ;; {at(@users, @ctx.user) == null_}
each %js::object.last_user_total = arr(0, 0) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)} ;; {at(@users, @ctx.user) == null_}
each at(@users, @ctx.user) = %js::object ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)} ;; {at(@users, @ctx.user) == null_}
each at(%js::object, idx(2)) = min((((-at(at(@users, @ctx.user).last_fees_paid, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))) * 2 * at(at(@users, @ctx.user).balance, idx(2))) / (at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) + at(at(@users, @ctx.user).last_user_total, idx(2)))), (-at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2)))) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)} ;; !{at(@users, @ctx.user) == null_} ;; {at(at(@users, @ctx.user).balance, 0)} | {at(at(@users, @ctx.user).balance, 1)} ;; {$0 == at(@users, @ctx.user).pool_idx} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; {at(at(@users, @ctx.user).last_fees_paid, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))}
each at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2))) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)} ;; !{at(@users, @ctx.user) == null_} ;; {at(at(@users, @ctx.user).balance, 0)} | {at(at(@users, @ctx.user).balance, 1)} ;; {$0 == at(@users, @ctx.user).pool_idx}
each send(@ctx.user, at(%js::object, idx(2)), at(@tokens, idx(2)), "mmx_swap_payout") ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)} ;; !{at(@users, @ctx.user) == null_} ;; {at(at(@users, @ctx.user).balance, 0)} | {at(at(@users, @ctx.user).balance, 1)} ;; {$0 == at(@users, @ctx.user).pool_idx}
each at(at(@users, @ctx.user).last_fees_paid, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2)) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)} ;; !{at(@users, @ctx.user) == null_} ;; {at(at(@users, @ctx.user).balance, 0)} | {at(at(@users, @ctx.user).balance, 1)} ;; {$0 == at(@users, @ctx.user).pool_idx}
each at(at(@users, @ctx.user).last_user_total, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)} ;; !{at(@users, @ctx.user) == null_} ;; {at(at(@users, @ctx.user).balance, 0)} | {at(at(@users, @ctx.user).balance, 1)} ;; {$0 == at(@users, @ctx.user).pool_idx}
each at(@users, @ctx.user).pool_idx = $0 ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)} ;; !{at(@users, @ctx.user) == null_}
each at(at(@state, $0).balance, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, $0).balance, idx(2))) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)}
each at(at(@state, $0).user_total, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, $0).user_total, idx(2))) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)}
each at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).last_fees_paid, idx(2)) = at(at(@state, $0).fees_paid, idx(2)) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)}
each at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).last_user_total, idx(2)) = at(at(@state, $0).user_total, idx(2)) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)}
each at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).balance, idx(2)) = (at(%js::object, idx(2)) + at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).balance, idx(2))) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)}
each ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).unlock_height = (@ctx.height + 8640) ;; {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)}
never break(loop)
raise !{$0 < size(@state)}
raise {$0 < size(@state)} ;; !{at(@users, @ctx.user)}
raise {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; {@ctx.height < at(@users, @ctx.user).unlock_height}
raise {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; {1 < idx(2)}
raise {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; {1 < idx(2)}
raise {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)} ;; !{$0 < size(@state)}
raise {$0 < size(@state)} ;; {at(@users, @ctx.user)} ;; !{@ctx.height < at(@users, @ctx.user).unlock_height} ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)} ;; !{at(@users, @ctx.user) == null_} ;; {at(at(@users, @ctx.user).balance, 0)} | {at(at(@users, @ctx.user).balance, 1)} ;; !{$0 == at(@users, @ctx.user).pool_idx}
exit !{@ctx.height < at(@users, @ctx.user).unlock_height}
exit {$0 < size(@state)}
exit {at(@users, @ctx.user)}
exit {did at(at(@users, @ctx.user).last_fees_paid, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))}
exit {did at(at(@users, @ctx.user).last_user_total, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}
exit {ret = %js::object}
exit !{1 < idx(2)} | !{at(%js::object, idx(2))}
exit !{1 < idx(2)} | !{at(at(@users, @ctx.user).balance, idx(2))}
exit !{at(%js::object, idx(2))} | {did at(at(@state, $0).balance, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, $0).balance, idx(2)))}
exit !{at(%js::object, idx(2))} | {did at(at(@state, $0).user_total, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, $0).user_total, idx(2)))}
exit !{at(%js::object, idx(2))} | {did at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).balance, idx(2)) = (at(%js::object, idx(2)) + at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).balance, idx(2)))}
exit !{at(%js::object, idx(2))} | {did at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).last_fees_paid, idx(2)) = at(at(@state, $0).fees_paid, idx(2))}
exit !{at(%js::object, idx(2))} | {did at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).last_user_total, idx(2)) = at(at(@state, $0).user_total, idx(2))}
exit !{at(%js::object, idx(2))} | {did ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).unlock_height = (@ctx.height + 8640)}
exit !{at(%js::object, idx(2))} | {did at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)))}
exit !{at(%js::object, idx(2))} | {did send(@ctx.user, at(%js::object, idx(2)), at(@tokens, idx(2)), "mmx_swap_payout")}
exit !{at(at(@users, @ctx.user).balance, idx(2))} | {did at(%js::object, 0) = (at(%js::object, 0) + at(%js::object, 0))}
exit !{at(at(@users, @ctx.user).balance, idx(2))} | {did at(%js::object, 1) = (at(%js::object, 1) + at(%js::object, 1))}
exit !{at(at(@users, @ctx.user).balance, idx(2))} | {did at(%js::object, ((idx(2) + 1) % 2)) = ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} || !{at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))}), 0, (((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))))}
exit !{at(at(@users, @ctx.user).balance, idx(2))} | {did at(%js::object, idx(2)) = ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), at(at(@users, @ctx.user).balance, idx(2)))}
exit !{at(at(@users, @ctx.user).balance, idx(2))} | {did at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) = (-at(at(@users, @ctx.user).balance, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))}
exit !{at(at(@users, @ctx.user).balance, idx(2))} | {did at(at(@users, @ctx.user).balance, idx(2)) = 0}
exit !{at(%js::object, idx(2))} | !{at(@users, @ctx.user) == null_} | {did %js::object.balance = arr(0, 0)}
exit !{at(%js::object, idx(2))} | !{at(@users, @ctx.user) == null_} | {did %js::object.last_fees_paid = arr(0, 0)}
exit !{at(%js::object, idx(2))} | !{at(@users, @ctx.user) == null_} | {did %js::object.last_user_total = arr(0, 0)}
exit !{at(%js::object, idx(2))} | !{at(@users, @ctx.user) == null_} | {did %js::object.pool_idx = $0}
exit !{at(%js::object, idx(2))} | !{at(@users, @ctx.user) == null_} | {did at(@users, @ctx.user) = %js::object}
exit !{at(%js::object, idx(2))} | {at(@users, @ctx.user) == null_} | {did at(@users, @ctx.user).pool_idx = $0}
exit !{at(at(@users, @ctx.user).balance, idx(2))} | !{at(at(@users, @ctx.user).last_fees_paid, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))} | {did at(%js::object, idx(2)) = min((((-at(at(@users, @ctx.user).last_fees_paid, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))) * 2 * at(at(@users, @ctx.user).balance, idx(2))) / (at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) + at(at(@users, @ctx.user).last_user_total, idx(2)))), (-at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))))}
exit !{((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} | !{at(at(@users, @ctx.user).balance, idx(2))} | {did at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) = (-ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), at(at(@users, @ctx.user).balance, idx(2))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)))}
exit !{((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | !{at(at(@users, @ctx.user).balance, idx(2))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} | {did at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) = (-ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), at(at(@users, @ctx.user).balance, idx(2))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)))}
exit !{at(%js::object, idx(2))} | !{at(at(@users, @ctx.user).balance, 0)} | {$0 == at(@users, @ctx.user).pool_idx} | {at(@users, @ctx.user) == null_}
exit !{at(%js::object, idx(2))} | !{at(at(@users, @ctx.user).balance, 1)} | {$0 == at(@users, @ctx.user).pool_idx} | {at(@users, @ctx.user) == null_}
exit !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} | !{at(at(@users, @ctx.user).balance, idx(2))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} | {did at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) = (-ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), at(at(@users, @ctx.user).balance, idx(2))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)))}
exit !{(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} | !{at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))} | !{at(at(@users, @ctx.user).balance, idx(2))} | {did at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) = (-(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)))}
at at(%js::object, idx(2)) = min((((-at(at(@users, @ctx.user).last_fees_paid, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))) * 2 * at(at(@users, @ctx.user).balance, idx(2))) / (at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) + at(at(@users, @ctx.user).last_user_total, idx(2)))), (-at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2)))) ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; {at(at(@users, @ctx.user).last_fees_paid, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))}
at at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2))) ;; {at(%js::object, idx(2))}
at send(@ctx.user, at(%js::object, idx(2)), at(@tokens, idx(2)), "mmx_swap_payout") ;; {at(%js::object, idx(2))}
at at(at(@users, @ctx.user).last_fees_paid, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2))
at at(at(@users, @ctx.user).last_user_total, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))
at at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) = (-ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), at(at(@users, @ctx.user).balance, idx(2))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2))) ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} | {at(at(@users, @ctx.user).balance, idx(2))} ;; !{at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} | {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | {at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} ;; {((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))} | {at(at(@users, @ctx.user).balance, idx(2))}
at at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) = (-(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)} ;; {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} ;; {at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))} ;; {(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))}
at at(at(@users, @ctx.user).balance, idx(2)) = 0 ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)}
at at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) = (-at(at(@users, @ctx.user).balance, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))) ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)}
at at(%js::object, idx(2)) = ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), at(at(@users, @ctx.user).balance, idx(2))) ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)}
at at(%js::object, ((idx(2) + 1) % 2)) = ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))} || !{at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))}), 0, (((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)))) ;; {at(at(@users, @ctx.user).balance, idx(2))} ;; !{1 < idx(2)}
at at(%js::object, 0) = (at(%js::object, 0) + at(%js::object, 0)) ;; {at(at(@users, @ctx.user).balance, idx(2))}
at at(%js::object, 1) = (at(%js::object, 1) + at(%js::object, 1)) ;; {at(at(@users, @ctx.user).balance, idx(2))}
at %js::object.pool_idx = $0 ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)} ;; {at(@users, @ctx.user) == null_}
at %js::object.balance = arr(0, 0) ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)} ;; {at(@users, @ctx.user) == null_}
at %js::object.last_fees_paid = arr(0, 0) ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)} ;; {at(@users, @ctx.user) == null_}
at %js::object.last_user_total = arr(0, 0) ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)} ;; {at(@users, @ctx.user) == null_}
at at(@users, @ctx.user) = %js::object ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)} ;; {at(@users, @ctx.user) == null_}
at at(@users, @ctx.user).pool_idx = $0 ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)} ;; !{at(@users, @ctx.user) == null_}
at at(at(@state, $0).balance, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, $0).balance, idx(2))) ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)}
at at(at(@state, $0).user_total, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, $0).user_total, idx(2))) ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)}
at at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).last_fees_paid, idx(2)) = at(at(@state, $0).fees_paid, idx(2)) ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)}
at at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).last_user_total, idx(2)) = at(at(@state, $0).user_total, idx(2)) ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)}
at at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).balance, idx(2)) = (at(%js::object, idx(2)) + at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).balance, idx(2))) ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)}
at ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).unlock_height = (@ctx.height + 8640) ;; {at(%js::object, idx(2))} ;; !{1 < idx(2)}
effects at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).fees_claimed, idx(2))) ;; send(@ctx.user, at(%js::object, idx(2)), at(@tokens, idx(2)), "mmx_swap_payout") ;; at(at(@users, @ctx.user).last_fees_paid, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).fees_paid, idx(2)) ;; at(at(@users, @ctx.user).last_user_total, idx(2)) = at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) ;; at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) = (-ite((!{at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2))} || {at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) < at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))}), ((at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2)) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))), at(at(@users, @ctx.user).balance, idx(2))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, idx(2))) ;; at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2)) = (-(((-at(at(@state, at(@users, @ctx.user).pool_idx).user_total, ((idx(2) + 1) % 2)) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) * at(at(@users, @ctx.user).balance, idx(2))) / at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))) + at(at(@state, at(@users, @ctx.user).pool_idx).balance, ((idx(2) + 1) % 2))) ;; at(at(@users, @ctx.user).balance, idx(2)) = 0 ;; at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2)) = (-at(at(@users, @ctx.user).balance, idx(2)) + at(at(@state, at(@users, @ctx.user).pool_idx).user_total, idx(2))) ;; at(@users, @ctx.user) = %js::object ;; at(@users, @ctx.user).pool_idx = $0 ;; at(at(@state, $0).balance, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, $0).balance, idx(2))) ;; at(at(@state, $0).user_total, idx(2)) = (at(%js::object, idx(2)) + at(at(@state, $0).user_total, idx(2))) ;; at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).last_fees_paid, idx(2)) = at(at(@state, $0).fees_paid, idx(2)) ;; at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).last_user_total, idx(2)) = at(at(@state, $0).user_total, idx(2)) ;; at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).balance, idx(2)) = (at(%js::object, idx(2)) + at(ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).balance, idx(2))) ;; ite({at(@users, @ctx.user) == null_}, %js::object, at(@users, @ctx.user)).unlock_height = (@ctx.height + 8640)
only ctor:js::object(…) ;; ctor:js::object(arr(0, 0)) ;; ctor:js::object(obj())
fn js::swap::get_total_balance
each at(%js::object, 0) = (at(%js::object, 0) + at(elem(@state).balance, 0))
each at(%js::object, 1) = (at(%js::object, 1) + at(elem(@state).balance, 1))
never break(@state)
never throw …
exit {did at(%js::object, 0) = (at(%js::object, 0) + at(elem(@state).balance, 0))}
exit {did at(%js::object, 1) = (at(%js::object, 1) + at(elem(@state).balance, 1))}
exit {ret = %js::object}
at at(%js::object, 0) = (at(%js::object, 0) + at(elem(@state).balance, 0))
at at(%js::object, 1) = (at(%js::object, 1) + at(elem(@state).balance, 1))
effects none
only ctor:js::object(…) ;; ctor:js::object(arr(0, 0))
fn js::swap::trade
never uint($2) ;; !{1 < $0} ;; {$3} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; !{fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)} ;; {$2}
never bech32($1) ;; !{1 < $0} ;; {$3} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; !{fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)}
never break(@state)
raise {1 < $0}
raise !{1 < $0} ;; !{$3}
raise !{1 < $0} ;; {$3} ;; !{@ctx.deposit.currency == at(@tokens, $0)}
raise !{1 < $0} ;; {$3} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; {fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)}
raise !{1 < $0} ;; {$3} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; !{fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)} ;; {$2} ;; {fold(0, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, fold(0, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~?, (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + -min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + at(elem(@state).balance, (($0 + 1) % 2)))), @state), 0) + ~), $3) < uint($2)}
raise !{1 < $0} ;; {$3} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; !{fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)} ;; !{fold(0, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, fold(0, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~?, (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + -min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + at(elem(@state).balance, (($0 + 1) % 2)))), @state), 0) + ~), $3)}
value fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)
value fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~?)), 0) + ~?), $3)
exit !{1 < $0}
exit !{fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)}
exit {$3}
exit {@ctx.deposit.currency == at(@tokens, $0)}
exit {did break(loop)}
exit {did send(bech32($1), fold(0, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, fold(0, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~?, (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + -min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + at(elem(@state).balance, (($0 + 1) % 2)))), @state), 0) + ~), $3), at(@tokens, (($0 + 1) % 2)), "mmx_swap_trade")}
exit {fold(0, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, fold(0, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~?, (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + -min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + at(elem(@state).balance, (($0 + 1) % 2)))), @state), 0) + ~), $3)}
exit {ret = %js::object}
exit !{$2} | !{fold(0, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, fold(0, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~?, (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + -min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + at(elem(@state).balance, (($0 + 1) % 2)))), @state), 0) + ~), $3) < uint($2)}
at at(%js::object, 0) = (at(%js::object, 0) + fold(0, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~?)), 0) + ~?), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))), @state)) ;; {fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)} ;; {fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}
at at(%js::object, 1) = (at(%js::object, 1) + fold(0, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~?)), 0) + ~?), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~?)), 0) + ~?), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))))), @state)) ;; {fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)} ;; {fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}
at at(@volume, (($0 + 1) % 2)) = (at(@volume, (($0 + 1) % 2)) + fold(0, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~?)), 0) + ~?), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))), @state)) ;; {fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)} ;; {fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}
at at(fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state).balance, $0) = (at(fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3))) ;; {fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)} ;; {fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}
at at(fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state).balance, (($0 + 1) % 2)) = (-fold(0, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~?)), 0) + ~?), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))), @state) + at(fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state).balance, (($0 + 1) % 2))) ;; {fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)} ;; {fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}
at at(fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state).fees_paid, (($0 + 1) % 2)) = (at(fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state).fees_paid, (($0 + 1) % 2)) + fold(0, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~?)), 0) + ~?), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~?)), 0) + ~?), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))))), @state)) ;; {fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)} ;; {fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}
at send(bech32($1), fold(0, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, fold(0, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~?, (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + -min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + at(elem(@state).balance, (($0 + 1) % 2)))), @state), 0) + ~), $3), at(@tokens, (($0 + 1) % 2)), "mmx_swap_trade")
effects at(@volume, (($0 + 1) % 2)) = (at(@volume, (($0 + 1) % 2)) + …) ;; at(….balance, $0) = (at(….balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), …)) ;; at(….balance, (($0 + 1) % 2)) = (-… + at(….balance, (($0 + 1) % 2))) ;; at(….fees_paid, (($0 + 1) % 2)) = (at(….fees_paid, (($0 + 1) % 2)) + …) ;; send(bech32($1), …, at(@tokens, (($0 + 1) % 2)), "mmx_swap_trade")
never break(loop) ;; !{1 < $0} ;; {$3} ;; {@ctx.deposit.currency == at(@tokens, $0)} ;; !{fold(@ctx.deposit.amount, (ite({fold(null_, ite((!{(((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + min(((((-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2))) * elem(@state).fee_rate) >> 64) + 1), (-((at(elem(@state).balance, $0) * at(elem(@state).balance, (($0 + 1) % 2))) / (at(elem(@state).balance, $0) + min((($3 + @ctx.deposit.amount + -1) / $3), ~?))) + at(elem(@state).balance, (($0 + 1) % 2)))) + ~?) < at(elem(@state).balance, (($0 + 1) % 2))} || !{at(elem(@state).balance, (($0 + 1) % 2))}), ~, elem(@state)), @state)}, (-min((($3 + @ctx.deposit.amount + -1) / $3), ~)), 0) + ~), $3)}
only ctor:js::object(…) ;; ctor:js::object(arr(0, 0))
fn js::swap::_init_state
each @fee_rates = arr(9223372036854776, 46116860184273879, 184467440737095516, 922337203685477581)
each @tokens = null_
each @state = arr()
each @volume = arr(0, 0)
each @users = obj()
never throw …
exit {did @fee_rates = arr(9223372036854776, 46116860184273879, 184467440737095516, 922337203685477581)}
exit {did @state = arr()}
exit {did @tokens = null_}
exit {did @users = obj()}
exit {did @volume = arr(0, 0)}
at @fee_rates = arr(9223372036854776, 46116860184273879, 184467440737095516, 922337203685477581)
at @tokens = null_
at @state = arr()
at @volume = arr(0, 0)
at @users = obj()
effects @fee_rates = arr(9223372036854776, 46116860184273879, 184467440737095516, 922337203685477581) ;; @tokens = null_ ;; @state = arr() ;; @volume = arr(0, 0) ;; @users = obj()
fn js::swap::_methods
each method("_get_earned_fees", "const")
each method("get_earned_fees", "const public")
each method("payout", "public")
each method("add_liquid", "payable public")
each method("rem_liquid", "public")
each method("rem_all_liquid", "public")
each method("switch_pool", "public")
each method("get_total_balance", "const public")
each method("trade", "payable public")
never throw …
exit {did method("_get_earned_fees", "const")}
exit {did method("get_earned_fees", "const public")}
exit {did method("payout", "public")}
exit {did method("add_liquid", "payable public")}
exit {did method("rem_liquid", "public")}
exit {did method("rem_all_liquid", "public")}
exit {did method("switch_pool", "public")}
exit {did method("get_total_balance", "const public")}
exit {did method("trade", "payable public")}
only method(…, "…public…") ;; method("get_earned_fees", "const public") ;; method("payout", "public") ;; method("add_liquid", "payable public") ;; method("rem_liquid", "public") ;; method("rem_all_liquid", "public") ;; method("switch_pool", "public") ;; method("get_total_balance", "const public") ;; method("trade", "payable public")
never method(…, "…static…")
