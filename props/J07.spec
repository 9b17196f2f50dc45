tus src/vm/std/compare.js src/vm/std/equals.js src/vm/std/reverse.js src/vm/std/sort.js src/vm/std/embedded.h!compare.js src/vm/std/embedded.h!equals.js src/vm/std/embedded.h!reverse.js src/vm/std/embedded.h!sort.js
fn js::std_compare::compare
each compare(elem($0), at($1, idx($0))) ;; {is_array($0)} ;; {is_array($1)} ;; {size($0) == size($1)}
never throw …
exit {ret = ite((!{$0 < $1} || ({is_array($0)} && {is_array($1)})), ite((!{$1 < $0} || ({is_array($0)} && {is_array($1)})), ite((!{is_array($0)} || !{is_array($1)}), "EQ", ite((!{size($0) < size($1)} || {size($0) == size($1)}), ite({size($0) == size($1)}, ite((!{"EQ" == compare(elem($0), at($1, idx($0)))} && {is_array($0)} && {is_array($1)} && {size($0) == size($1)}), compare(elem($0), at($1, idx($0))), "EQ"), "GT"), "LT")), "GT"), "LT")}
exit !{$0 < $1} | {is_array($0)} | {ret = "LT"}
exit !{$0 < $1} | {is_array($1)} | {ret = "LT"}
exit !{$1 < $0} | {$0 < $1} | {is_array($0)} | {ret = "GT"}
exit !{$1 < $0} | {$0 < $1} | {is_array($1)} | {ret = "GT"}
exit !{is_array($0)} | !{is_array($1)} | !{size($0) == size($1)} | {did compare(elem($0), at($1, idx($0)))}
exit {$0 < $1} | {$1 < $0} | {is_array($0)} | {ret = "EQ"}
exit {$0 < $1} | {$1 < $0} | {is_array($1)} | {ret = "EQ"}
exit !{"EQ" == compare(elem($0), at($1, idx($0)))} | !{is_array($0)} | !{is_array($1)} | !{size($0) == size($1)} | {ret = "EQ"}
exit !{is_array($0)} | !{is_array($1)} | !{size($0) < size($1)} | {ret = "LT"} | {size($0) == size($1)}
exit !{is_array($0)} | !{is_array($1)} | !{size($0) == size($1)} | {"EQ" == compare(elem($0), at($1, idx($0)))} | {did break($0)}
exit !{is_array($0)} | !{is_array($1)} | !{size($0) == size($1)} | {"EQ" == compare(elem($0), at($1, idx($0)))} | {ret = compare(elem($0), at($1, idx($0)))}
exit !{is_array($0)} | !{is_array($1)} | {ret = "GT"} | {size($0) < size($1)} | {size($0) == size($1)}
at compare(elem($0), at($1, idx($0))) ;; {is_array($0)} ;; {is_array($1)} ;; {size($0) == size($1)}
effects compare(elem($0), at($1, idx($0)))
never break($0) ;; {is_array($0)} ;; {is_array($1)} ;; {size($0) == size($1)} ;; !{"EQ" == compare(elem($0), at($1, idx($0)))}
fn js::std_equals::equals
each equals(elem($0), at($1, idx($0))) ;; !{$0 == $1} ;; {is_array($0)} ;; {is_array($1)} ;; {size($0) == size($1)}
never throw …
exit !{is_array($0)} | !{is_array($1)} | !{size($0) == size($1)} | {$0 == $1} | {did equals(elem($0), at($1, idx($0)))}
true {$0 == $1} | {is_array($0)}
true {$0 == $1} | {is_array($1)}
true {$0 == $1} | {size($0) == size($1)}
true {$0 == $1} | {equals(elem($0), at($1, idx($0)))}
false !{$0 == $1}
false !{equals(elem($0), at($1, idx($0)))} | !{is_array($0)} | !{is_array($1)} | !{size($0) == size($1)}
at equals(elem($0), at($1, idx($0))) ;; !{$0 == $1} ;; {is_array($0)} ;; {is_array($1)} ;; {size($0) == size($1)}
effects equals(elem($0), at($1, idx($0)))
never break($0) ;; !{$0 == $1} ;; {is_array($0)} ;; {is_array($1)} ;; {size($0) == size($1)} ;; !{equals(elem($0), at($1, idx($0)))}
fn js::std_reverse::reverse
each push(%js::object, at($0, (-idx($0) + size($0) + -1)))
never break($0)
never throw …
exit {did push(%js::object, at($0, (-idx($0) + size($0) + -1)))}
exit {ret = %js::object}
at push(%js::object, at($0, (-idx($0) + size($0) + -1)))
effects none
only ctor:js::object(…) ;; ctor:js::object(arr())
fn js::std_sort::sort
each at($0, idx((-idx((size($0) + -1)) + size($0) + -1))) = at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) ;; {1 < size($0)} ;; {at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) < at($0, idx((-idx((size($0) + -1)) + size($0) + -1)))}
each at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) = at($0, idx((-idx((size($0) + -1)) + size($0) + -1))) ;; {1 < size($0)} ;; {at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) < at($0, idx((-idx((size($0) + -1)) + size($0) + -1)))}
never break(loop)
never throw …
exit {ret = $0}
exit !{1 < size($0)} | !{at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) < at($0, idx((-idx((size($0) + -1)) + size($0) + -1)))} | {did at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) = at($0, idx((-idx((size($0) + -1)) + size($0) + -1)))}
exit !{1 < size($0)} | !{at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) < at($0, idx((-idx((size($0) + -1)) + size($0) + -1)))} | {did at($0, idx((-idx((size($0) + -1)) + size($0) + -1))) = at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1))}
at at($0, idx((-idx((size($0) + -1)) + size($0) + -1))) = at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) ;; {1 < size($0)} ;; {at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) < at($0, idx((-idx((size($0) + -1)) + size($0) + -1)))}
at at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) = at($0, idx((-idx((size($0) + -1)) + size($0) + -1))) ;; {1 < size($0)} ;; {at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) < at($0, idx((-idx((size($0) + -1)) + size($0) + -1)))}
effects at($0, idx((-idx((size($0) + -1)) + size($0) + -1))) = at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) ;; at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) = at($0, idx((-idx((size($0) + -1)) + size($0) + -1)))
fn js::emb_compare::compare
each compare(elem($0), at($1, idx($0))) ;; {is_array($0)} ;; {is_array($1)} ;; {size($0) == size($1)}
never throw …
exit {ret = ite((!{$0 < $1} || ({is_array($0)} && {is_array($1)})), ite((!{$1 < $0} || ({is_array($0)} && {is_array($1)})), ite((!{is_array($0)} || !{is_array($1)}), "EQ", ite((!{size($0) < size($1)} || {size($0) == size($1)}), ite({size($0) == size($1)}, ite((!{"EQ" == compare(elem($0), at($1, idx($0)))} && {is_array($0)} && {is_array($1)} && {size($0) == size($1)}), compare(elem($0), at($1, idx($0))), "EQ"), "GT"), "LT")), "GT"), "LT")}
exit !{$0 < $1} | {is_array($0)} | {ret = "LT"}
exit !{$0 < $1} | {is_array($1)} | {ret = "LT"}
exit !{$1 < $0} | {$0 < $1} | {is_array($0)} | {ret = "GT"}
exit !{$1 < $0} | {$0 < $1} | {is_array($1)} | {ret = "GT"}
exit !{is_array($0)} | !{is_array($1)} | !{size($0) == size($1)} | {did compare(elem($0), at($1, idx($0)))}
exit {$0 < $1} | {$1 < $0} | {is_array($0)} | {ret = "EQ"}
exit {$0 < $1} | {$1 < $0} | {is_array($1)} | {ret = "EQ"}
exit !{"EQ" == compare(elem($0), at($1, idx($0)))} | !{is_array($0)} | !{is_array($1)} | !{size($0) == size($1)} | {ret = "EQ"}
exit !{is_array($0)} | !{is_array($1)} | !{size($0) < size($1)} | {ret = "LT"} | {size($0) == size($1)}
exit !{is_array($0)} | !{is_array($1)} | !{size($0) == size($1)} | {"EQ" == compare(elem($0), at($1, idx($0)))} | {did break($0)}
exit !{is_array($0)} | !{is_array($1)} | !{size($0) == size($1)} | {"EQ" == compare(elem($0), at($1, idx($0)))} | {ret = compare(elem($0), at($1, idx($0)))}
exit !{is_array($0)} | !{is_array($1)} | {ret = "GT"} | {size($0) < size($1)} | {size($0) == size($1)}
at compare(elem($0), at($1, idx($0))) ;; {is_array($0)} ;; {is_array($1)} ;; {size($0) == size($1)}
effects compare(elem($0), at($1, idx($0)))
never break($0) ;; {is_array($0)} ;; {is_array($1)} ;; {size($0) == size($1)} ;; !{"EQ" == compare(elem($0), at($1, idx($0)))}
fn js::emb_equals::equals
each equals(elem($0), at($1, idx($0))) ;; !{$0 == $1} ;; {is_array($0)} ;; {is_array($1)} ;; {size($0) == size($1)}
never throw …
exit !{is_array($0)} | !{is_array($1)} | !{size($0) == size($1)} | {$0 == $1} | {did equals(elem($0), at($1, idx($0)))}
true {$0 == $1} | {is_array($0)}
true {$0 == $1} | {is_array($1)}
true {$0 == $1} | {size($0) == size($1)}
true {$0 == $1} | {equals(elem($0), at($1, idx($0)))}
false !{$0 == $1}
false !{equals(elem($0), at($1, idx($0)))} | !{is_array($0)} | !{is_array($1)} | !{size($0) == size($1)}
at equals(elem($0), at($1, idx($0))) ;; !{$0 == $1} ;; {is_array($0)} ;; {is_array($1)} ;; {size($0) == size($1)}
effects equals(elem($0), at($1, idx($0)))
never break($0) ;; !{$0 == $1} ;; {is_array($0)} ;; {is_array($1)} ;; {size($0) == size($1)} ;; !{equals(elem($0), at($1, idx($0)))}
fn js::emb_reverse::reverse
each push(%js::object, at($0, (-idx($0) + size($0) + -1)))
never break($0)
never throw …
exit {did push(%js::object, at($0, (-idx($0) + size($0) + -1)))}
exit {ret = %js::object}
at push(%js::object, at($0, (-idx($0) + size($0) + -1)))
effects none
only ctor:js::object(…) ;; ctor:js::object(arr())
fn js::emb_sort::sort
each at($0, idx((-idx((size($0) + -1)) + size($0) + -1))) = at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) ;; {1 < size($0)} ;; {at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) < at($0, idx((-idx((size($0) + -1)) + size($0) + -1)))}
each at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) = at($0, idx((-idx((size($0) + -1)) + size($0) + -1))) ;; {1 < size($0)} ;; {at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) < at($0, idx((-idx((size($0) + -1)) + size($0) + -1)))}
never break(loop)
never throw …
exit {ret = $0}
exit !{1 < size($0)} | !{at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) < at($0, idx((-idx((size($0) + -1)) + size($0) + -1)))} | {did at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) = at($0, idx((-idx((size($0) + -1)) + size($0) + -1)))}
exit !{1 < size($0)} | !{at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) < at($0, idx((-idx((size($0) + -1)) + size($0) + -1)))} | {did at($0, idx((-idx((size($0) + -1)) + size($0) + -1))) = at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1))}
at at($0, idx((-idx((size($0) + -1)) + size($0) + -1))) = at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) ;; {1 < size($0)} ;; {at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) < at($0, idx((-idx((size($0) + -1)) + size($0) + -1)))}
at at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) = at($0, idx((-idx((size($0) + -1)) + size($0) + -1))) ;; {1 < size($0)} ;; {at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) < at($0, idx((-idx((size($0) + -1)) + size($0) + -1)))}
effects at($0, idx((-idx((size($0) + -1)) + size($0) + -1))) = at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) ;; at($0, (idx((-idx((size($0) + -1)) + size($0) + -1)) + 1)) = at($0, idx((-idx((size($0) + -1)) + size($0) + -1)))
