tus src/fixed128.cpp src/uint128.cpp
fn mmx::fixed128::fixed128 sig=double
each @fixed = to_amount($0, decimals)
never throw …
exit {did @fixed := 0}
exit {did @fixed = to_amount($0, decimals)}
at @fixed := 0
at @fixed = to_amount($0, decimals)
fn mmx::fixed128::fixed128 sig=uint128_t~&,~const~int
never break(loop)
at @fixed = fold(wide256(($0 * divider)), (~ / 10), $1) ;; !{upper(fold(wide256(($0 * divider)), (~ / 10), $1))}
each @fixed = fold(wide256(($0 * divider)), (~ / 10), $1) ;; !{upper(fold(wide256(($0 * divider)), (~ / 10), $1))}
raise {upper(fold(wide256(($0 * divider)), (~ / 10), $1))}
value fold(wide256(($0 * divider)), (~ / 10), $1)
exit !{upper(fold(wide256(($0 * divider)), (~ / 10), $1))}
exit {did @fixed := 0}
exit {did @fixed = fold(wide256(($0 * divider)), (~ / 10), $1)}
at @fixed := 0
at @fixed = fold(wide256(($0 * divider)), (~ / 10), $1)
fn mmx::fixed128::fixed128 sig=basic_string
never break(loop)
at @fixed = wide256((divider * fold(0, (w64((elem(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0)))) + -48)) + wide256((10 * ~))), substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0)))))) ;; !{empty($0)} ;; {find_first_not_of($0, "0123456789.,eE-", 0) == npos} ;; !{find_first_of($0, ".,", 0) == npos} | !{find_first_of($0, "eE", 0) == npos} ;; !{empty(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))} ;; {find_first_not_of(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))), "0123456789", 0) == npos}
at @fixed = wide256((divider * fold(0, (w64((elem($0) + -48)) + wide256((10 * ~))), $0))) ;; !{empty($0)} ;; {find_first_not_of($0, "0123456789.,eE-", 0) == npos} ;; {find_first_of($0, ".,", 0) == npos} ;; {find_first_of($0, "eE", 0) == npos}
each @fixed = wide256((divider * fold(0, (w64((elem(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0)))) + -48)) + wide256((10 * ~))), substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0)))))) ;; !{empty($0)} ;; {find_first_not_of($0, "0123456789.,eE-", 0) == npos} ;; !{find_first_of($0, ".,", 0) == npos} | !{find_first_of($0, "eE", 0) == npos} ;; !{empty(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))} ;; {find_first_not_of(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))), "0123456789", 0) == npos}
each resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1)))))) ;; !{empty($0)} ;; {find_first_not_of($0, "0123456789.,eE-", 0) == npos} ;; !{find_first_of($0, ".,", 0) == npos} | !{find_first_of($0, "eE", 0) == npos} ;; !{empty(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))} ;; {find_first_not_of(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))), "0123456789", 0) == npos} ;; !{find_first_of($0, ".,", 0) == npos}
each @fixed = wide256((10 * @fixed)) ;; !{empty($0)} ;; {find_first_not_of($0, "0123456789.,eE-", 0) == npos} ;; !{find_first_of($0, ".,", 0) == npos} | !{find_first_of($0, "eE", 0) == npos} ;; !{empty(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))} ;; {find_first_not_of(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))), "0123456789", 0) == npos} ;; !{find_first_of($0, "eE", 0) == npos} ;; !{(-i32(size(ite({find_first_of($0, ".,", 0) == npos}, ctor(string), resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))))))))) + decimals) < abs(from_string(substr($0, (find_first_of($0, "eE", 0) + 1), npos)))} ;; {-1 < from_string(substr($0, (find_first_of($0, "eE", 0) + 1), npos))}
each @fixed = (@fixed / 10) ;; !{empty($0)} ;; {find_first_not_of($0, "0123456789.,eE-", 0) == npos} ;; !{find_first_of($0, ".,", 0) == npos} | !{find_first_of($0, "eE", 0) == npos} ;; !{empty(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))} ;; {find_first_not_of(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))), "0123456789", 0) == npos} ;; !{find_first_of($0, "eE", 0) == npos} ;; !{(-i32(size(ite({find_first_of($0, ".,", 0) == npos}, ctor(string), resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))))))))) + decimals) < abs(from_string(substr($0, (find_first_of($0, "eE", 0) + 1), npos)))} ;; !{-1 < from_string(substr($0, (find_first_of($0, "eE", 0) + 1), npos))}
each @fixed = wide256((divider * fold(0, (w64((elem($0) + -48)) + wide256((10 * ~))), $0))) ;; !{empty($0)} ;; {find_first_not_of($0, "0123456789.,eE-", 0) == npos} ;; {find_first_of($0, ".,", 0) == npos} ;; {find_first_of($0, "eE", 0) == npos}
never break(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))
never break($0)
raise !{find_first_not_of($0, "0123456789.,eE-", 0) == npos} | {empty($0)}
raise !{empty($0)} ;; {find_first_not_of($0, "0123456789.,eE-", 0) == npos} ;; !{find_first_of($0, ".,", 0) == npos} | !{find_first_of($0, "eE", 0) == npos} ;; !{find_first_not_of(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))), "0123456789", 0) == npos} | {empty(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))}
raise !{empty($0)} ;; {find_first_not_of($0, "0123456789.,eE-", 0) == npos} ;; !{find_first_of($0, ".,", 0) == npos} | !{find_first_of($0, "eE", 0) == npos} ;; !{empty(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))} ;; {find_first_not_of(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))), "0123456789", 0) == npos} ;; !{find_first_not_of(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))), "0123456789", 0) == npos}
raise !{empty($0)} ;; {find_first_not_of($0, "0123456789.,eE-", 0) == npos} ;; !{find_first_of($0, ".,", 0) == npos} | !{find_first_of($0, "eE", 0) == npos} ;; !{empty(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))} ;; {find_first_not_of(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))), "0123456789", 0) == npos} ;; !{find_first_of($0, ".,", 0) == npos} ;; !{find_first_not_of(resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1)))))), "0123456789", 0) == npos}
raise !{empty($0)} ;; {find_first_not_of($0, "0123456789.,eE-", 0) == npos} ;; !{find_first_of($0, ".,", 0) == npos} | !{find_first_of($0, "eE", 0) == npos} ;; !{empty(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))} ;; {find_first_not_of(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))), "0123456789", 0) == npos} ;; !{find_first_of($0, "eE", 0) == npos} ;; {(-i32(size(ite({find_first_of($0, ".,", 0) == npos}, ctor(string), resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))))))))) + decimals) < abs(from_string(substr($0, (find_first_of($0, "eE", 0) + 1), npos)))}
raise !{empty($0)} ;; {find_first_not_of($0, "0123456789.,eE-", 0) == npos} ;; {find_first_of($0, ".,", 0) == npos} ;; {find_first_of($0, "eE", 0) == npos} ;; !{find_first_not_of($0, "0123456789", 0) == npos}
value fold(0, (w64((elem($0) + -48)) + wide256((10 * ~))), $0)
value fold(0, (w64((elem(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0)))) + -48)) + wide256((10 * ~))), substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))
exit !{empty($0)}
exit {did @fixed := 0}
exit {find_first_not_of($0, "0123456789.,eE-", 0) == npos}
exit !{(-i32(size(ite({find_first_of($0, ".,", 0) == npos}, ctor(string), resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))))))))) + decimals) < abs(from_string(substr($0, (find_first_of($0, "eE", 0) + 1), npos)))} | {find_first_of($0, "eE", 0) == npos}
exit !{empty(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))} | {find_first_of($0, ".,", 0) == npos}
exit !{empty(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))} | {find_first_of($0, "eE", 0) == npos}
exit {did @fixed = wide256((divider * fold(0, (w64((elem(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0)))) + -48)) + wide256((10 * ~))), substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))))} | {find_first_of($0, ".,", 0) == npos}
exit {did @fixed = wide256((divider * fold(0, (w64((elem(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0)))) + -48)) + wide256((10 * ~))), substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))))} | {find_first_of($0, "eE", 0) == npos}
exit {did resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))))))} | {find_first_of($0, ".,", 0) == npos}
exit {find_first_not_of(resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1)))))), "0123456789", 0) == npos} | {find_first_of($0, ".,", 0) == npos}
exit {find_first_not_of(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))), "0123456789", 0) == npos} | {find_first_of($0, ".,", 0) == npos}
exit {find_first_not_of(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))), "0123456789", 0) == npos} | {find_first_of($0, "eE", 0) == npos}
exit !{find_first_of($0, ".,", 0) == npos} | !{find_first_of($0, "eE", 0) == npos} | {did @fixed = wide256((divider * fold(0, (w64((elem($0) + -48)) + wide256((10 * ~))), $0)))}
exit !{find_first_of($0, ".,", 0) == npos} | !{find_first_of($0, "eE", 0) == npos} | {find_first_not_of($0, "0123456789", 0) == npos}
exit !{fold(0, (w64((elem(resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))))))) + -48)) + wide256((10 * ~))), resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1)))))))} | {did @fixed = (fold(fold(0, (w64((elem(resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))))))) + -48)) + wide256((10 * ~))), resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))))))), wide((10 * ~)), (-i32(size(resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1)))))))) + decimals)) + wide256((divider * fold(0, (w64((elem(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0)))) + -48)) + wide256((10 * ~))), substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0)))))))} | {find_first_of($0, ".,", 0) == npos}
at @fixed := 0
at @fixed = wide256((divider * fold(0, (w64((elem(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0)))) + -48)) + wide256((10 * ~))), substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0)))))) ;; !{find_first_of($0, ".,", 0) == npos} | !{find_first_of($0, "eE", 0) == npos} ;; !{empty(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))} ;; {find_first_not_of(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))), "0123456789", 0) == npos}
at @fixed = (fold(fold(0, (w64((elem(resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))))))) + -48)) + wide256((10 * ~))), resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))))))), wide((10 * ~)), (-i32(size(resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1)))))))) + decimals)) + wide256((divider * fold(0, (w64((elem(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0)))) + -48)) + wide256((10 * ~))), substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))))) ;; !{find_first_of($0, ".,", 0) == npos} | !{find_first_of($0, "eE", 0) == npos} ;; !{empty(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))} ;; {find_first_not_of(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))), "0123456789", 0) == npos} ;; !{find_first_of($0, ".,", 0) == npos} ;; {fold(0, (w64((elem(resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))))))) + -48)) + wide256((10 * ~))), resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1)))))))} ;; {find_first_not_of(resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1)))))), "0123456789", 0) == npos}
at @fixed = wide256((10 * @fixed)) ;; !{find_first_of($0, ".,", 0) == npos} | !{find_first_of($0, "eE", 0) == npos} ;; !{empty(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))} ;; {find_first_not_of(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))), "0123456789", 0) == npos} ;; !{find_first_of($0, "eE", 0) == npos} ;; !{(-i32(size(ite({find_first_of($0, ".,", 0) == npos}, ctor(string), resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))))))))) + decimals) < abs(from_string(substr($0, (find_first_of($0, "eE", 0) + 1), npos)))} ;; {-1 < from_string(substr($0, (find_first_of($0, "eE", 0) + 1), npos))}
at @fixed = (@fixed / 10) ;; !{find_first_of($0, ".,", 0) == npos} | !{find_first_of($0, "eE", 0) == npos} ;; !{empty(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))))} ;; {find_first_not_of(substr($0, 0, min(find_first_of($0, ".,", 0), find_first_of($0, "eE", 0))), "0123456789", 0) == npos} ;; !{find_first_of($0, "eE", 0) == npos} ;; !{(-i32(size(ite({find_first_of($0, ".,", 0) == npos}, ctor(string), resize(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))), min(decimals, size(ite((!{find_first_of($0, ".,", 0) < find_first_of($0, "eE", 0)} || {find_first_of($0, "eE", 0) == npos}), substr($0, (find_first_of($0, ".,", 0) + 1), npos), substr($0, (find_first_of($0, ".,", 0) + 1), (-find_first_of($0, ".,", 0) + find_first_of($0, "eE", 0) + -1))))))))) + decimals) < abs(from_string(substr($0, (find_first_of($0, "eE", 0) + 1), npos)))} ;; !{-1 < from_string(substr($0, (find_first_of($0, "eE", 0) + 1), npos))}
at @fixed = wide256((divider * fold(0, (w64((elem($0) + -48)) + wide256((10 * ~))), $0))) ;; {find_first_of($0, ".,", 0) == npos} ;; {find_first_of($0, "eE", 0) == npos} ;; {find_first_not_of($0, "0123456789", 0) == npos}
fn mmx::fixed128::fixed128 sig=(const~mmx::uint128~&)
each @fixed = wide256(($0 * divider))
never throw …
exit {did @fixed := 0}
exit {did @fixed = wide256(($0 * divider))}
at @fixed := 0
at @fixed = wide256(($0 * divider))
fn mmx::fixed128::to_string
never break(loop)
at pop_back(fold(to_string(fractional()), pop_back(~))) ;; {fractional()} ;; !{empty(fold(to_string(fractional()), pop_back(~)))} ;; {48 == back(fold(to_string(fractional()), pop_back(~)))}
each pop_back(fold(to_string(fractional()), pop_back(~))) ;; {fractional()} ;; !{empty(fold(to_string(fractional()), pop_back(~)))} ;; {48 == back(fold(to_string(fractional()), pop_back(~)))}
never throw …
value fold(to_string(fractional()), pop_back(~))
value fold((str(uint(), 10, 0) ++ 46), (~ ++ 48), (-i32(size(to_string(fractional()))) + decimals))
exit !{fractional()} | {ret = (fold((str(uint(), 10, 0) ++ 46), (~ ++ 48), (-i32(size(to_string(fractional()))) + decimals)) ++ fold(to_string(fractional()), pop_back(~)))}
exit {fractional()} | {ret = str(uint(), 10, 0)}
exit !{fractional()} | {ret = (fold((str(uint(), 10, 0) ++ 46), (~ ++ 48), (-i32(size(to_string(fractional()))) + decimals)) ++ fold(to_string(fractional()), pop_back(~)))}
exit {fractional()} | {ret = str(uint(), 10, 0)}
fn mmx::fixed128::to_amount
never break(loop)
never throw …
value fold(@fixed, (~ / 10), (-$0 + decimals))
value fold(@fixed, wide256((10 * ~)), ($0 + -decimals))
exit !{$0 < decimals} | {ret = fold(@fixed, (~ / 10), (-$0 + decimals))}
exit {$0 < decimals} | {ret = fold(@fixed, wide256((10 * ~)), ($0 + -decimals))}
exit !{$0 < decimals} | {ret = fold(@fixed, (~ / 10), (-$0 + decimals))}
exit {$0 < decimals} | {ret = fold(@fixed, wide256((10 * ~)), ($0 + -decimals))}
fn mmx::fixed128::uint
never throw …
exit {ret = (@fixed / divider)}
fn mmx::fixed128::fractional
never throw …
exit {ret = (@fixed % divider)}
fn mmx::uint128::uint128 sig=basic_string
each this = lower(ite({"0x" == substr($0, 0, 2)}, ctor(uint256_t, substr($0, 2, npos), 16), ctor(uint256_t, $0, 10))) ;; !{(ite({"0x" == substr($0, 0, 2)}, ctor(uint256_t, substr($0, 2, npos), 16), ctor(uint256_t, $0, 10)) >> 128)}
raise {(ite({"0x" == substr($0, 0, 2)}, ctor(uint256_t, substr($0, 2, npos), 16), ctor(uint256_t, $0, 10)) >> 128)}
exit !{(ite({"0x" == substr($0, 0, 2)}, ctor(uint256_t, substr($0, 2, npos), 16), ctor(uint256_t, $0, 10)) >> 128)}
exit {did this = lower(ite({"0x" == substr($0, 0, 2)}, ctor(uint256_t, substr($0, 2, npos), 16), ctor(uint256_t, $0, 10)))}
fn mmx::uint128::uint128 sig=uint256_t
each this = lower($0) ;; !{($0 >> 128)}
raise {($0 >> 128)}
exit !{($0 >> 128)}
exit {did this = lower($0)}
