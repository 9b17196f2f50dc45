tus src/Node_validate.cpp
fn mmx::to_amount sig=(const~double,~const~int file=include/mmx/utils.h
never break(loop)
raise !{-1 < $1} | {18 < $1}
raise {-1 < $1} ;; !{18 < $1} ;; {isnan($0)}
raise {-1 < $1} ;; !{18 < $1} ;; !{isnan($0)} ;; !{-1 < $0}
raise {-1 < $1} ;; !{18 < $1} ;; !{isnan($0)} ;; {-1 < $0} ;; !{($0 / pow(2, 64)) < pow(2, 64)}
raise {-1 < $1} ;; !{18 < $1} ;; !{isnan($0)} ;; {-1 < $0} ;; {($0 / pow(2, 64)) < pow(2, 64)} ;; {((u64(((fmod($0, 1) * pow(10, f64($1))) + 0.5)) + wide256(((u64(fmod($0, pow(2, 64))) + wide((18446744073709551616 * u64(($0 / pow(2, 64)))))) * fold(uint128_1, wide((10 * ~)), $1)))) >> 128)}
value fold(uint128_1, wide((10 * ~)), $1)
exit !{((u64(((fmod($0, 1) * pow(10, f64($1))) + 0.5)) + wide256(((u64(fmod($0, pow(2, 64))) + wide((18446744073709551616 * u64(($0 / pow(2, 64)))))) * fold(uint128_1, wide((10 * ~)), $1)))) >> 128)}
exit !{18 < $1}
exit !{isnan($0)}
exit {($0 / pow(2, 64)) < pow(2, 64)}
exit {-1 < $0}
exit {-1 < $1}
exit {ret = (u64(((fmod($0, 1) * pow(10, f64($1))) + 0.5)) + wide256(((u64(fmod($0, pow(2, 64))) + wide((18446744073709551616 * u64(($0 / pow(2, 64)))))) * fold(uint128_1, wide((10 * ~)), $1))))}
fn mmx::to_amount sig=(const~double,~std file=include/mmx/utils.h
never throw …
exit {ret = to_amount($0, $1.decimals)}
fn mmx::handle_implicit_deposit file=include/mmx/utils.h
each %txout_t.address = $2 ;; {$4} ;; {elem(ctor(map<addr_t,uint128>, begin($1), end($1))).second} ;; {$3}
each %txout_t.contract = elem(ctor(map<addr_t,uint128>, begin($1), end($1))).first ;; {$4} ;; {elem(ctor(map<addr_t,uint128>, begin($1), end($1))).second} ;; {$3}
each %txout_t.amount = elem(ctor(map<addr_t,uint128>, begin($1), end($1))).second ;; {$4} ;; {elem(ctor(map<addr_t,uint128>, begin($1), end($1))).second} ;; {$3}
each push_back($0, %txout_t) ;; {$4} ;; {elem(ctor(map<addr_t,uint128>, begin($1), end($1))).second} ;; {$3}
each %txout_t.address = $2 ;; !{$4} ;; {elem($1).second} ;; {$3}
each %txout_t.contract = elem($1).first ;; !{$4} ;; {elem($1).second} ;; {$3}
each %txout_t.amount = elem($1).second ;; !{$4} ;; {elem($1).second} ;; {$3}
each push_back($0, %txout_t) ;; !{$4} ;; {elem($1).second} ;; {$3}
never break(ctor(map<addr_t,uint128>, begin($1), end($1)))
never break($1)
raise {$4} ;; {elem(ctor(map<addr_t,uint128>, begin($1), end($1))).second} ;; !{$3}
raise !{$4} ;; {elem($1).second} ;; !{$3}
exit !{$4} | !{elem(ctor(map<addr_t,uint128>, begin($1), end($1))).second} | {$3}
exit !{$4} | !{elem(ctor(map<addr_t,uint128>, begin($1), end($1))).second} | {did %txout_t.address = $2}
exit !{$4} | !{elem(ctor(map<addr_t,uint128>, begin($1), end($1))).second} | {did %txout_t.amount = elem(ctor(map<addr_t,uint128>, begin($1), end($1))).second}
exit !{$4} | !{elem(ctor(map<addr_t,uint128>, begin($1), end($1))).second} | {did %txout_t.contract = elem(ctor(map<addr_t,uint128>, begin($1), end($1))).first}
exit !{$4} | !{elem(ctor(map<addr_t,uint128>, begin($1), end($1))).second} | {did push_back($0, %txout_t)}
exit !{elem($1).second} | {$3} | {$4}
exit !{elem($1).second} | {$4} | {did %txout_t.address = $2}
exit !{elem($1).second} | {$4} | {did %txout_t.amount = elem($1).second}
exit !{elem($1).second} | {$4} | {did %txout_t.contract = elem($1).first}
exit !{elem($1).second} | {$4} | {did push_back($0, %txout_t)}
at %txout_t.address = $2 ;; {$3}
at %txout_t.contract = elem(ctor(map<addr_t,uint128>, begin($1), end($1))).first ;; {$4} ;; {elem(ctor(map<addr_t,uint128>, begin($1), end($1))).second} ;; {$3}
at %txout_t.amount = elem(ctor(map<addr_t,uint128>, begin($1), end($1))).second ;; {$4} ;; {elem(ctor(map<addr_t,uint128>, begin($1), end($1))).second} ;; {$3}
at push_back($0, %txout_t) ;; {$3}
at %txout_t.contract = elem($1).first ;; !{$4} ;; {elem($1).second} ;; {$3}
at %txout_t.amount = elem($1).second ;; !{$4} ;; {elem($1).second} ;; {$3}
fn mmx::cost_to_fee file=include/mmx/utils.h
raise {upper((wide(($0 * $1)) / 1024))}
exit !{upper((wide(($0 * $1)) / 1024))}
exit {ret = (wide(($0 * $1)) / 1024)}
fn mmx::fee_to_cost file=include/mmx/utils.h
raise {upper((wide(($0 * 1024)) / $1))}
exit !{upper((wide(($0 * 1024)) / $1))}
exit {ret = (wide(($0 * 1024)) / $1)}
fn mmx::to_amount sig=fixed128 file=include/mmx/utils.h
never throw …
exit {ret = to_amount($0, $1)}
