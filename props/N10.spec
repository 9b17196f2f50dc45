tus src/Node.cpp
fn mmx::Node::find_challenge sig=BlockHeader
never find_prev(fold($0, find_prev(~, 1, false), (-$1 + @params.challenge_delay)), 1, false) ;; !{@params.challenge_delay < $1}
at push_back(%vector<shared_ptr<BlockHeader>>, find_prev(fold($0, find_prev(~, 1, false), (-$1 + @params.challenge_delay)), 1, false)) ;; !{@params.challenge_delay < $1} ;; {find_prev(fold($0, find_prev(~, 1, false), (-$1 + @params.challenge_delay)), 1, false)}
at push_back(%vector<pair<hash_t,unsignedlong>>, ctor(hash_t, ("next_challenge" ++ fold(fold(0, elem(%vector<shared_ptr<BlockHeader>>), %vector<shared_ptr<BlockHeader>>).challenge, ctor(hash_t, ("next_challenge" ++ ~)), (elem(%vector<shared_ptr<BlockHeader>>).vdf_count + -1)))), fold(0, elem(%vector<shared_ptr<BlockHeader>>), %vector<shared_ptr<BlockHeader>>).space_diff) ;; !{@params.challenge_delay < $1} ;; {fold(0, elem(%vector<shared_ptr<BlockHeader>>), %vector<shared_ptr<BlockHeader>>)}
each push_back(%vector<shared_ptr<BlockHeader>>, find_prev(fold($0, find_prev(~, 1, false), (-$1 + @params.challenge_delay)), 1, false)) ;; !{@params.challenge_delay < $1} ;; {find_prev(fold($0, find_prev(~, 1, false), (-$1 + @params.challenge_delay)), 1, false)}
each reverse(begin(%vector<shared_ptr<BlockHeader>>), end(%vector<shared_ptr<BlockHeader>>)) ;; !{@params.challenge_delay < $1}
each push_back(%vector<pair<hash_t,unsignedlong>>, ctor(hash_t, ("next_challenge" ++ fold(fold(0, elem(%vector<shared_ptr<BlockHeader>>), %vector<shared_ptr<BlockHeader>>).challenge, ctor(hash_t, ("next_challenge" ++ ~)), (elem(%vector<shared_ptr<BlockHeader>>).vdf_count + -1)))), fold(0, elem(%vector<shared_ptr<BlockHeader>>), %vector<shared_ptr<BlockHeader>>).space_diff) ;; !{@params.challenge_delay < $1} ;; {fold(0, elem(%vector<shared_ptr<BlockHeader>>), %vector<shared_ptr<BlockHeader>>)}
each push_back(%vector<pair<hash_t,unsignedlong>>, elem(%vector<shared_ptr<BlockHeader>>).challenge, elem(%vector<shared_ptr<BlockHeader>>).space_diff) ;; !{@params.challenge_delay < $1}
each reverse(begin(%vector<pair<hash_t,unsignedlong>>), end(%vector<pair<hash_t,unsignedlong>>)) ;; !{@params.challenge_delay < $1}
each push_back(%vector<pair<hash_t,unsignedlong>>, ctor(hash_t, ("prev_challenge" ++ back(%vector<pair<hash_t,unsignedlong>>).first)), back(%vector<pair<hash_t,unsignedlong>>).second) ;; !{@params.challenge_delay < $1} ;; !{(-$1 + @params.challenge_delay) < size(%vector<pair<hash_t,unsignedlong>>)}
never break(%vector<shared_ptr<BlockHeader>>)
never throw …
value fold($0, find_prev(~, 1, false), (-$1 + @params.challenge_delay))
value fold(fold(0, elem(%vector<shared_ptr<BlockHeader>>), %vector<shared_ptr<BlockHeader>>).challenge, ctor(hash_t, ("next_challenge" ++ ~)), (elem(%vector<shared_ptr<BlockHeader>>).vdf_count + -1))
exit !{@params.challenge_delay < $1} | !{@params.max_vdf_count < ($1 + -@params.challenge_delay)} | {out $2 = $2}
exit !{@params.challenge_delay < $1} | {@params.max_vdf_count < ($1 + -@params.challenge_delay)} | {out $2 = fold($0.challenge, ctor(hash_t, ("next_challenge" ++ ~)), ($1 + -@params.challenge_delay))}
exit !{find_prev(fold($0, find_prev(~, 1, false), (-$1 + @params.challenge_delay)), 1, false)} | {@params.challenge_delay < $1} | {out $2 = at(%vector<pair<hash_t,unsignedlong>>, (-$1 + @params.challenge_delay)).first}
exit !{fold($0, find_prev(~, 1, false), (-$1 + @params.challenge_delay)).height} | {@params.challenge_delay < $1} | {find_prev(fold($0, find_prev(~, 1, false), (-$1 + @params.challenge_delay)), 1, false)} | {out $2 = $2}
exit {@params.challenge_delay < $1} | {fold($0, find_prev(~, 1, false), (-$1 + @params.challenge_delay)).height} | {out $2 = at(%vector<pair<hash_t,unsignedlong>>, (-$1 + @params.challenge_delay)).first}
exit !{@params.challenge_delay < $1} | !{@params.max_vdf_count < ($1 + -@params.challenge_delay)} | {out $3 = $3}
exit !{@params.challenge_delay < $1} | {@params.max_vdf_count < ($1 + -@params.challenge_delay)} | {out $3 = $0.space_diff}
exit !{find_prev(fold($0, find_prev(~, 1, false), (-$1 + @params.challenge_delay)), 1, false)} | {@params.challenge_delay < $1} | {out $3 = at(%vector<pair<hash_t,unsignedlong>>, (-$1 + @params.challenge_delay)).second}
exit !{fold($0, find_prev(~, 1, false), (-$1 + @params.challenge_delay)).height} | {@params.challenge_delay < $1} | {find_prev(fold($0, find_prev(~, 1, false), (-$1 + @params.challenge_delay)), 1, false)} | {out $3 = $3}
exit {@params.challenge_delay < $1} | {fold($0, find_prev(~, 1, false), (-$1 + @params.challenge_delay)).height} | {out $3 = at(%vector<pair<hash_t,unsignedlong>>, (-$1 + @params.challenge_delay)).second}
exit !{find_prev(…, 1, false)} | {(-$1 + @params.challenge_delay) < size(%vector<pair<hash_t,unsignedlong>>)} | {@params.challenge_delay < $1}
exit !{find_prev(…, 1, false)} | {@params.challenge_delay < $1} | {did push_back(%vector<pair<hash_t,unsignedlong>>, elem(%vector<shared_ptr<BlockHeader>>).challenge, elem(%vector<shared_ptr<BlockHeader>>).space_diff)}
exit !{find_prev(…, 1, false)} | {@params.challenge_delay < $1} | {did push_back(%vector<shared_ptr<BlockHeader>>, find_prev(…, 1, false))}
exit !{find_prev(…, 1, false)} | {@params.challenge_delay < $1} | {did reverse(begin(%vector<pair<hash_t,unsignedlong>>), end(%vector<pair<hash_t,unsignedlong>>))}
exit !{find_prev(…, 1, false)} | {@params.challenge_delay < $1} | {did reverse(begin(%vector<shared_ptr<BlockHeader>>), end(%vector<shared_ptr<BlockHeader>>))}
exit {(-$1 + @params.challenge_delay) < size(%vector<pair<hash_t,unsignedlong>>)} | {@params.challenge_delay < $1} | {‥.height}
exit {@params.challenge_delay < $1} | {did push_back(%vector<pair<hash_t,unsignedlong>>, elem(%vector<shared_ptr<BlockHeader>>).challenge, elem(%vector<shared_ptr<BlockHeader>>).space_diff)} | {‥.height}
exit {@params.challenge_delay < $1} | {did reverse(begin(%vector<pair<hash_t,unsignedlong>>), end(%vector<pair<hash_t,unsignedlong>>))} | {‥.height}
exit {@params.challenge_delay < $1} | {did reverse(begin(%vector<shared_ptr<BlockHeader>>), end(%vector<shared_ptr<BlockHeader>>))} | {‥.height}
false !{find_prev(…, 1, false)} | {@params.challenge_delay < $1}
false {@params.challenge_delay < $1} | {‥.height}
false !{@params.max_vdf_count < ($1 + -@params.challenge_delay)} | !{find_prev(…, 1, false)} | {@params.challenge_delay < $1}
false !{@params.max_vdf_count < ($1 + -@params.challenge_delay)} | {@params.challenge_delay < $1} | {‥.height}
false !{@params.challenge_delay < $1} | {@params.max_vdf_count < ($1 + -@params.challenge_delay)}
false !{find_prev(…, 1, false)} | {@params.challenge_delay < $1} | {@params.max_vdf_count < ($1 + -@params.challenge_delay)}
false {@params.challenge_delay < $1} | {@params.max_vdf_count < ($1 + -@params.challenge_delay)} | {‥.height}
at push_back(%vector<shared_ptr<BlockHeader>>, find_prev(…, 1, false)) ;; !{@params.challenge_delay < $1} ;; {find_prev(…, 1, false)}
at reverse(begin(%vector<shared_ptr<BlockHeader>>), end(%vector<shared_ptr<BlockHeader>>)) ;; !{@params.challenge_delay < $1}
at push_back(%vector<pair<hash_t,unsignedlong>>, ctor(hash_t, ("next_challenge" ++ …)), ‥.space_diff) ;; !{@params.challenge_delay < $1} ;; {…}
at push_back(%vector<pair<hash_t,unsignedlong>>, elem(%vector<shared_ptr<BlockHeader>>).challenge, elem(%vector<shared_ptr<BlockHeader>>).space_diff) ;; !{@params.challenge_delay < $1}
at reverse(begin(%vector<pair<hash_t,unsignedlong>>), end(%vector<pair<hash_t,unsignedlong>>)) ;; !{@params.challenge_delay < $1}
at push_back(%vector<pair<hash_t,unsignedlong>>, ctor(hash_t, ("prev_challenge" ++ back(%vector<pair<hash_t,unsignedlong>>).first)), back(%vector<pair<hash_t,unsignedlong>>).second) ;; !{@params.challenge_delay < $1} ;; !{(-$1 + @params.challenge_delay) < size(%vector<pair<hash_t,unsignedlong>>)}
never break(loop) ;; !{@params.challenge_delay < $1}
fn mmx::Node::find_challenge sig=(const~unsigned~int
never break(loop)
never find_prev(fold(get_peak(), find_prev(~, 1, false)), 1, false) ;; {fold(get_peak(), find_prev(~, 1, false))} ;; {$0 < fold(get_peak(), find_prev(~, 1, false)).vdf_height}
at find_challenge(fold(get_peak(), find_prev(~, 1, false)), ($0 + -fold(get_peak(), find_prev(~, 1, false)).vdf_height), $1, $2) ;; {fold(get_peak(), find_prev(~, 1, false))}
each find_challenge(fold(get_peak(), find_prev(~, 1, false)), ($0 + -fold(get_peak(), find_prev(~, 1, false)).vdf_height), $1, $2) ;; {fold(get_peak(), find_prev(~, 1, false))}
never throw …
value fold(get_peak(), find_prev(~, 1, false))
false !{find_challenge(…, ($0 + -‥.vdf_height), $1, $2)} | !{…} | {get_peak()}
false !{find_challenge(…, ($0 + -‥.vdf_height), $1, $2)} | !{…} | !{get_peak().vdf_height < $0} | {get_peak()}
false !{find_challenge(…, ($0 + -‥.vdf_height), $1, $2)} | !{…} | {@max_history < (-$0 + get_peak().vdf_height)} | {get_peak()}
false !{find_challenge(…, ($0 + -‥.vdf_height), $1, $2)} | !{…} | {get_peak().vdf_height < $0} | {get_peak()}
false !{find_challenge(…, ($0 + -‥.vdf_height), $1, $2)} | !{…} | {@max_history < (-$0 + get_peak().vdf_height)} | {get_peak().vdf_height < $0}
false !{find_challenge(…, ($0 + -‥.vdf_height), $1, $2)} | !{…} | {@params.max_vdf_count < ($0 + -get_peak().vdf_height)} | {get_peak()}
false !{find_challenge(…, ($0 + -‥.vdf_height), $1, $2)} | !{…} | !{get_peak().vdf_height < $0} | {@params.max_vdf_count < ($0 + -get_peak().vdf_height)}
false !{find_challenge(…, ($0 + -‥.vdf_height), $1, $2)} | !{…} | {@max_history < (-$0 + get_peak().vdf_height)} | {@params.max_vdf_count < ($0 + -get_peak().vdf_height)}
at find_challenge(…, ($0 + -‥.vdf_height), $1, $2) ;; {…} ;; !{@max_history < (-$0 + get_peak().vdf_height)} | !{get_peak()} | {get_peak().vdf_height < $0} ;; !{@params.max_vdf_count < ($0 + -get_peak().vdf_height)} | !{get_peak().vdf_height < $0} | !{get_peak()}
fn mmx::Node::get_challenge
each find_challenge($0, $1, ctor(hash_t), $2)
raise !{find_challenge($0, $1, ctor(hash_t), $2)}
exit {did find_challenge($0, $1, ctor(hash_t), $2)}
exit {find_challenge($0, $1, ctor(hash_t), $2)}
exit {out $2 = …}
exit {ret = …}
fn mmx::Node::get_time_diff
raise !{find_prev($0, @params.commit_delay, true)}
exit {find_prev($0, @params.commit_delay, true)}
exit {ret = find_prev($0, @params.commit_delay, true).time_diff}
fn mmx::Node::find_infusion
never break(loop)
never find_prev(fold($0, find_prev(~, 1, false)), 1, false) ;; {$1 < @params.infuse_delay} ;; {fold($0, find_prev(~, 1, false))} ;; {(-$1 + @params.infuse_delay) < $0.vdf_height} | {fold($0, find_prev(~, 1, false)).vdf_height} ;; !{(-$1 + @params.infuse_delay) < $0.vdf_height} | {($0.vdf_height + $1 + -@params.infuse_delay) < fold($0, find_prev(~, 1, false)).vdf_height} ;; {($0.vdf_height + $1 + -@params.infuse_delay) < fold($0, find_prev(~, 1, false)).vdf_height} | {fold($0, find_prev(~, 1, false)).vdf_height}
never get_time_diff(ite({$1 < @params.infuse_delay}, fold($0, find_prev(~, 1, false)), $0)) ;; {$0} | {$1 < @params.infuse_delay} ;; !{$1 < @params.infuse_delay} | {fold($0, find_prev(~, 1, false))} ;; {$0} | {fold($0, find_prev(~, 1, false))}
never get_block_iters(@params, get_time_diff(ite({$1 < @params.infuse_delay}, fold($0, find_prev(~, 1, false)), $0))) ;; {$0} | {$1 < @params.infuse_delay} ;; !{$1 < @params.infuse_delay} | {fold($0, find_prev(~, 1, false))} ;; {$0} | {fold($0, find_prev(~, 1, false))}
never throw …
value fold($0, find_prev(~, 1, false))
false !{$1 < @params.infuse_delay} | !{…}
false !{$0} | {$1 < @params.infuse_delay}
fn mmx::Node::get_infusion
each find_infusion($0, $1, ctor(hash_t), $2)
raise !{find_infusion($0, $1, ctor(hash_t), $2)}
exit {did find_infusion($0, $1, ctor(hash_t), $2)}
exit {find_infusion($0, $1, ctor(hash_t), $2)}
exit {out $2 = …}
exit {ret = …}
fn mmx::Node::find_vdf_point
never throw …
value fold(equal_range(@vdf_tree, $1).first, (~ + 1))
exit !{$0 == fold(equal_range(@vdf_tree, $1).first, (~ + 1)).second.input} | !{$1 == fold(equal_range(@vdf_tree, $1).first, (~ + 1)).second.output} | {equal_range(@vdf_tree, $1).second == fold(equal_range(@vdf_tree, $1).first, (~ + 1))} | {ret = fold(equal_range(@vdf_tree, $1).first, (~ + 1)).second}
exit !{equal_range(@vdf_tree, $1).second == fold(equal_range(@vdf_tree, $1).first, (~ + 1))} | {ret = 0}
exit {$0 == fold(equal_range(@vdf_tree, $1).first, (~ + 1)).second.input} | {ret = 0}
exit {$1 == fold(equal_range(@vdf_tree, $1).first, (~ + 1)).second.output} | {ret = 0}
exit !{equal_range(@vdf_tree, $1).second == …} | {ret = 0}
exit {$0 == ‥.second.input} | {equal_range(@vdf_tree, $1).second == …}
exit {$0 == ‥.second.input} | {ret = 0}
exit {$1 == ‥.second.output} | {equal_range(@vdf_tree, $1).second == …}
exit {$1 == ‥.second.output} | {ret = 0}
exit !{$0 == ‥.second.input} | !{$1 == ‥.second.output} | !{equal_range(@vdf_tree, $1).second == …}
exit !{$0 == ‥.second.input} | !{$1 == ‥.second.output} | {equal_range(@vdf_tree, $1).second == …} | {ret = ‥.second}
fn mmx::Node::find_vdf_points
never equal_range(@vdf_tree, fold($0.vdf_output, ite((!{equal_range(@vdf_tree, ~).second == fold(equal_range(@vdf_tree, ~).first, (~ + 1))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.num_iters == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.output == ~} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.prev == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)}), fold(equal_range(@vdf_tree, ~).first, (~? + 1)).second.input, ~))) ;; {find_prev($0, 1, false)} ;; {size(%vector<shared_ptr<VDF_Point>>) < $0.vdf_count} ;; {find_infusion(find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t), 0)}
at push_back(%vector<shared_ptr<VDF_Point>>, fold(equal_range(@vdf_tree, fold($0.vdf_output, ite((!{equal_range(@vdf_tree, ~).second == fold(equal_range(@vdf_tree, ~).first, (~ + 1))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.num_iters == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.output == ~} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.prev == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)}), fold(equal_range(@vdf_tree, ~).first, (~? + 1)).second.input, ~))).first, (~ + 1)).second) ;; {find_prev($0, 1, false)} ;; {size(%vector<shared_ptr<VDF_Point>>) < $0.vdf_count} ;; {find_infusion(find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t), 0)} ;; !{equal_range(@vdf_tree, fold($0.vdf_output, ite((!{equal_range(@vdf_tree, ~).second == fold(equal_range(@vdf_tree, ~).first, (~ + 1))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.num_iters == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.output == ~} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.prev == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)}), fold(equal_range(@vdf_tree, ~).first, (~? + 1)).second.input, ~))).second == fold(equal_range(@vdf_tree, fold($0.vdf_output, ite((!{equal_range(@vdf_tree, ~).second == fold(equal_range(@vdf_tree, ~).first, (~ + 1))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.num_iters == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.output == ~} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.prev == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)}), fold(equal_range(@vdf_tree, ~).first, (~? + 1)).second.input, ~))).first, (~ + 1))} ;; {fold($0.vdf_output, ite((!{equal_range(@vdf_tree, ~).second == fold(equal_range(@vdf_tree, ~).first, (~ + 1))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.num_iters == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.output == ~} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.prev == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)}), fold(equal_range(@vdf_tree, ~).first, (~? + 1)).second.input, ~)) == fold(equal_range(@vdf_tree, fold($0.vdf_output, ite((!{equal_range(@vdf_tree, ~).second == fold(equal_range(@vdf_tree, ~).first, (~ + 1))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.num_iters == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.output == ~} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.prev == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)}), fold(equal_range(@vdf_tree, ~).first, (~? + 1)).second.input, ~))).first, (~ + 1)).second.output} ;; {fold(equal_range(@vdf_tree, fold($0.vdf_output, ite((!{equal_range(@vdf_tree, ~).second == fold(equal_range(@vdf_tree, ~).first, (~ + 1))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.num_iters == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.output == ~} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.prev == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)}), fold(equal_range(@vdf_tree, ~).first, (~? + 1)).second.input, ~))).first, (~ + 1)).second.prev == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)} ;; {fold(equal_range(@vdf_tree, fold($0.vdf_output, ite((!{equal_range(@vdf_tree, ~).second == fold(equal_range(@vdf_tree, ~).first, (~ + 1))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.num_iters == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.output == ~} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.prev == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)}), fold(equal_range(@vdf_tree, ~).first, (~? + 1)).second.input, ~))).first, (~ + 1)).second.num_iters == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))}
at reverse(begin(%vector<shared_ptr<VDF_Point>>), end(%vector<shared_ptr<VDF_Point>>)) ;; {find_prev($0, 1, false)} ;; {find_prev($0, 1, false).vdf_output == fold($0.vdf_output, ite((!{equal_range(@vdf_tree, ~).second == fold(equal_range(@vdf_tree, ~).first, (~ + 1))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.num_iters == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.output == ~} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.prev == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)}), fold(equal_range(@vdf_tree, ~).first, (~? + 1)).second.input, ~))}
each find_infusion(find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t), 0) ;; {find_prev($0, 1, false)} ;; {size(%vector<shared_ptr<VDF_Point>>) < $0.vdf_count}
each push_back(%vector<shared_ptr<VDF_Point>>, fold(equal_range(@vdf_tree, fold($0.vdf_output, ite((!{equal_range(@vdf_tree, ~).second == fold(equal_range(@vdf_tree, ~).first, (~ + 1))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.num_iters == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.output == ~} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.prev == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)}), fold(equal_range(@vdf_tree, ~).first, (~? + 1)).second.input, ~))).first, (~ + 1)).second) ;; {find_prev($0, 1, false)} ;; {size(%vector<shared_ptr<VDF_Point>>) < $0.vdf_count} ;; {find_infusion(find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t), 0)} ;; !{equal_range(@vdf_tree, fold($0.vdf_output, ite((!{equal_range(@vdf_tree, ~).second == fold(equal_range(@vdf_tree, ~).first, (~ + 1))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.num_iters == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.output == ~} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.prev == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)}), fold(equal_range(@vdf_tree, ~).first, (~? + 1)).second.input, ~))).second == fold(equal_range(@vdf_tree, fold($0.vdf_output, ite((!{equal_range(@vdf_tree, ~).second == fold(equal_range(@vdf_tree, ~).first, (~ + 1))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.num_iters == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.output == ~} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.prev == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)}), fold(equal_range(@vdf_tree, ~).first, (~? + 1)).second.input, ~))).first, (~ + 1))} ;; {fold($0.vdf_output, ite((!{equal_range(@vdf_tree, ~).second == fold(equal_range(@vdf_tree, ~).first, (~ + 1))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.num_iters == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.output == ~} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.prev == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)}), fold(equal_range(@vdf_tree, ~).first, (~? + 1)).second.input, ~)) == fold(equal_range(@vdf_tree, fold($0.vdf_output, ite((!{equal_range(@vdf_tree, ~).second == fold(equal_range(@vdf_tree, ~).first, (~ + 1))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.num_iters == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.output == ~} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.prev == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)}), fold(equal_range(@vdf_tree, ~).first, (~? + 1)).second.input, ~))).first, (~ + 1)).second.output} ;; {fold(equal_range(@vdf_tree, fold($0.vdf_output, ite((!{equal_range(@vdf_tree, ~).second == fold(equal_range(@vdf_tree, ~).first, (~ + 1))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.num_iters == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.output == ~} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.prev == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)}), fold(equal_range(@vdf_tree, ~).first, (~? + 1)).second.input, ~))).first, (~ + 1)).second.prev == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)} ;; {fold(equal_range(@vdf_tree, fold($0.vdf_output, ite((!{equal_range(@vdf_tree, ~).second == fold(equal_range(@vdf_tree, ~).first, (~ + 1))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.num_iters == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.output == ~} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.prev == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)}), fold(equal_range(@vdf_tree, ~).first, (~? + 1)).second.input, ~))).first, (~ + 1)).second.num_iters == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))}
each reverse(begin(%vector<shared_ptr<VDF_Point>>), end(%vector<shared_ptr<VDF_Point>>)) ;; {find_prev($0, 1, false)} ;; {find_prev($0, 1, false).vdf_output == fold($0.vdf_output, ite((!{equal_range(@vdf_tree, ~).second == fold(equal_range(@vdf_tree, ~).first, (~ + 1))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.num_iters == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.output == ~} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.prev == out(find_infusion‥, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)}), fold(equal_range(@vdf_tree, ~).first, (~? + 1)).second.input, ~))}
never throw …
value fold(equal_range(@vdf_tree, fold($0.vdf_output, ite((!{equal_range(@vdf_tree, ~).second == fold(equal_range(@vdf_tree, ~).first, (~ + 1))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.num_iters == out(find_infusion#v, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t))} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.output == ~} && {fold(equal_range(@vdf_tree, ~).first, (~ + 1)).second.prev == out(find_infusion#v, find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), 0)}), fold(equal_range(@vdf_tree, ~).first, (~? + 1)).second.input, ~))).first, (~ + 1))
exit !{size(%vector<shared_ptr<VDF_Point>>) < $0.vdf_count} | {find_infusion(find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t), 0)} | {ret = ctor(vector<shared_ptr<VDF_Point>>)}
exit {find_prev($0, 1, false)} | {ret = ctor(vector<shared_ptr<VDF_Point>>)}
exit {find_prev($0, 1, false)} | {ret = ctor(vector<shared_ptr<VDF_Point>>)}
exit !{find_prev($0, 1, false).vdf_output == …} | !{find_prev($0, 1, false)} | {ret = %vector<shared_ptr<VDF_Point>>} | {size(%vector<shared_ptr<VDF_Point>>) < $0.vdf_count}
exit !{find_prev($0, 1, false)} | !{size(%vector<shared_ptr<VDF_Point>>) < $0.vdf_count} | {find_infusion(find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t), 0)} | {ret = ctor(vector<shared_ptr<VDF_Point>>)}
exit !{find_prev($0, 1, false)} | {find_prev($0, 1, false).vdf_output == …} | {ret = ctor(vector<shared_ptr<VDF_Point>>)} | {size(%vector<shared_ptr<VDF_Point>>) < $0.vdf_count}
exit !{equal_range(@vdf_tree, …).second == …} | !{find_infusion(find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t), 0)} | !{find_prev($0, 1, false)} | !{size(%vector<shared_ptr<VDF_Point>>) < $0.vdf_count} | {ret = ctor(vector<shared_ptr<VDF_Point>>)}
exit !{find_infusion(find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t), 0)} | !{find_prev($0, 1, false)} | !{size(%vector<shared_ptr<VDF_Point>>) < $0.vdf_count} | {… == ….second.output} | {ret = ctor(vector<shared_ptr<VDF_Point>>)}
exit !{find_infusion(find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t), 0)} | !{find_prev($0, 1, false)} | !{size(%vector<shared_ptr<VDF_Point>>) < $0.vdf_count} | {….second.num_iters == …} | {ret = ctor(vector<shared_ptr<VDF_Point>>)}
exit !{find_infusion(find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t), 0)} | !{find_prev($0, 1, false)} | !{size(%vector<shared_ptr<VDF_Point>>) < $0.vdf_count} | {….second.prev == …} | {ret = ctor(vector<shared_ptr<VDF_Point>>)}
at find_infusion(find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t), 0) ;; {find_prev($0, 1, false)} ;; {size(%vector<shared_ptr<VDF_Point>>) < $0.vdf_count}
at push_back(%vector<shared_ptr<VDF_Point>>, ….second) ;; {find_prev($0, 1, false)} ;; {size(%vector<shared_ptr<VDF_Point>>) < $0.vdf_count} ;; {find_infusion(find_prev($0, 1, false), u32(($0.vdf_count + -size(%vector<shared_ptr<VDF_Point>>) + -1)), ctor(hash_t), 0)} ;; !{equal_range(@vdf_tree, …).second == …} ;; {… == ….second.output} ;; {….second.prev == …} ;; {….second.num_iters == …}
at reverse(begin(%vector<shared_ptr<VDF_Point>>), end(%vector<shared_ptr<VDF_Point>>)) ;; {find_prev($0, 1, false)} ;; {find_prev($0, 1, false).vdf_output == …} ;; !{size(%vector<shared_ptr<VDF_Point>>) < $0.vdf_count}
never break(loop) ;; {find_prev($0, 1, false)} ;; {size(%vector<shared_ptr<VDF_Point>>) < $0.vdf_count}
fn mmx::Node::find_next_vdf_points
at at(%unordered_map<hash_t,shared_ptr<VDF_Point>>, fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1)).second.output) = fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1)).second ;; !{equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).second == fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1))} ;; {has(%unordered_map<hash_t,shared_ptr<VDF_Point>>, fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1)).second.input)} ;; {fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1)).second.prev == get_infusion($0, idx(@params.max_vdf_count), 0)} ;; {fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1)).second.num_iters == out(get_infusion‥, $0, idx(@params.max_vdf_count))}
at push_back(%vector<shared_ptr<VDF_Point>>, fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1)).second) ;; !{equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).second == fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1))} ;; {has(%unordered_map<hash_t,shared_ptr<VDF_Point>>, fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1)).second.input)} ;; {fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1)).second.prev == get_infusion($0, idx(@params.max_vdf_count), 0)} ;; {fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1)).second.num_iters == out(get_infusion‥, $0, idx(@params.max_vdf_count))}
at push_back(%vector<shared_ptr<VDF_Point>>, fold(at(%vector<shared_ptr<VDF_Point>>, 0), at(%unordered_map<hash_t,shared_ptr<VDF_Point>>, ~.input))) ;; !{empty(%vector<shared_ptr<VDF_Point>>)} ;; {fold(at(%vector<shared_ptr<VDF_Point>>, 0), at(%unordered_map<hash_t,shared_ptr<VDF_Point>>, ~.input))}
each at(%unordered_map<hash_t,shared_ptr<VDF_Point>>, $0.vdf_output) = 0
each get_infusion($0, idx(@params.max_vdf_count), 0)
each at(%unordered_map<hash_t,shared_ptr<VDF_Point>>, fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1)).second.output) = fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1)).second ;; !{equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).second == fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1))} ;; {has(%unordered_map<hash_t,shared_ptr<VDF_Point>>, fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1)).second.input)} ;; {fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1)).second.prev == get_infusion($0, idx(@params.max_vdf_count), 0)} ;; {fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1)).second.num_iters == out(get_infusion‥, $0, idx(@params.max_vdf_count))}
each push_back(%vector<shared_ptr<VDF_Point>>, fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1)).second) ;; !{equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).second == fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1))} ;; {has(%unordered_map<hash_t,shared_ptr<VDF_Point>>, fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1)).second.input)} ;; {fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1)).second.prev == get_infusion($0, idx(@params.max_vdf_count), 0)} ;; {fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion‥, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion‥, $0, idx(@params.max_vdf_count)))).first, (~ + 1)).second.num_iters == out(get_infusion‥, $0, idx(@params.max_vdf_count))}
each %vector<shared_ptr<VDF_Point>> = %vector<shared_ptr<VDF_Point>> ;; !{empty(%vector<shared_ptr<VDF_Point>>)}
each sort(begin(%vector<shared_ptr<VDF_Point>>), end(%vector<shared_ptr<VDF_Point>>), by({$cb0.recv_time < $cb1.recv_time})) ;; !{empty(%vector<shared_ptr<VDF_Point>>)}
each push_back(%vector<shared_ptr<VDF_Point>>, fold(at(%vector<shared_ptr<VDF_Point>>, 0), at(%unordered_map<hash_t,shared_ptr<VDF_Point>>, ~.input))) ;; !{empty(%vector<shared_ptr<VDF_Point>>)} ;; {fold(at(%vector<shared_ptr<VDF_Point>>, 0), at(%unordered_map<hash_t,shared_ptr<VDF_Point>>, ~.input))}
each reverse(begin(%vector<shared_ptr<VDF_Point>>), end(%vector<shared_ptr<VDF_Point>>)) ;; !{empty(%vector<shared_ptr<VDF_Point>>)}
never throw …
value fold(at(%vector<shared_ptr<VDF_Point>>, 0), at(%unordered_map<hash_t,shared_ptr<VDF_Point>>, ~.input))
value fold(equal_range(@vdf_index, (fold($0.vdf_iters, (out(get_infusion#v, $0, idx(@params.max_vdf_count)) + ~), @params.max_vdf_count) + out(get_infusion#v, $0, idx(@params.max_vdf_count)))).first, (~ + 1))
exit {did at(%unordered_map<hash_t,shared_ptr<VDF_Point>>, $0.vdf_output) = 0}
exit {did get_infusion($0, idx(@params.max_vdf_count), 0)}
exit {equal_range(@vdf_index, (‥ + ‥)).second == …}
exit !{empty(%vector<shared_ptr<VDF_Point>>)} | {ret = ctor(vector<shared_ptr<VDF_Point>>)}
exit {empty(%vector<shared_ptr<VDF_Point>>)} | {ret = %vector<shared_ptr<VDF_Point>>}
exit !{empty(%vector<shared_ptr<VDF_Point>>)} | {ret = ctor(vector<shared_ptr<VDF_Point>>)}
exit {did push_back(%vector<shared_ptr<VDF_Point>>, …)} | {empty(%vector<shared_ptr<VDF_Point>>)}
exit {did reverse(begin(%vector<shared_ptr<VDF_Point>>), end(%vector<shared_ptr<VDF_Point>>))} | {empty(%vector<shared_ptr<VDF_Point>>)}
exit {did sort(begin(%vector<shared_ptr<VDF_Point>>), end(%vector<shared_ptr<VDF_Point>>), by({$cb0.recv_time < $cb1.recv_time}))} | {empty(%vector<shared_ptr<VDF_Point>>)}
exit {empty(%vector<shared_ptr<VDF_Point>>)} | {ret = %vector<shared_ptr<VDF_Point>>}
exit !{….second.num_iters == …} | !{….second.prev == get_infusion($0, idx(@params.max_vdf_count), 0)} | !{has(%unordered_map<hash_t,shared_ptr<VDF_Point>>, ….second.input)} | {did at(%unordered_map<hash_t,shared_ptr<VDF_Point>>, ….second.output) = ….second}
exit !{….second.num_iters == …} | !{….second.prev == get_infusion($0, idx(@params.max_vdf_count), 0)} | !{has(%unordered_map<hash_t,shared_ptr<VDF_Point>>, ….second.input)} | {did push_back(%vector<shared_ptr<VDF_Point>>, ….second)}
at at(%unordered_map<hash_t,shared_ptr<VDF_Point>>, $0.vdf_output) = 0
at get_infusion($0, idx(@params.max_vdf_count), 0)
at at(%unordered_map<hash_t,shared_ptr<VDF_Point>>, ….second.output) = ….second ;; !{equal_range(@vdf_index, (… + …)).second == …} ;; {has(%unordered_map<hash_t,shared_ptr<VDF_Point>>, ….second.input)} ;; {….second.prev == get_infusion($0, idx(@params.max_vdf_count), 0)} ;; {….second.num_iters == …}
at push_back(%vector<shared_ptr<VDF_Point>>, ….second) ;; !{equal_range(@vdf_index, (… + …)).second == …} ;; {has(%unordered_map<hash_t,shared_ptr<VDF_Point>>, ….second.input)} ;; {….second.prev == get_infusion($0, idx(@params.max_vdf_count), 0)} ;; {….second.num_iters == …}
at %vector<shared_ptr<VDF_Point>> = %vector<shared_ptr<VDF_Point>> ;; !{empty(%vector<shared_ptr<VDF_Point>>)}
at sort(begin(%vector<shared_ptr<VDF_Point>>), end(%vector<shared_ptr<VDF_Point>>), by({$cb0.recv_time < $cb1.recv_time})) ;; !{empty(%vector<shared_ptr<VDF_Point>>)}
at push_back(%vector<shared_ptr<VDF_Point>>, …) ;; {…}
at reverse(begin(%vector<shared_ptr<VDF_Point>>), end(%vector<shared_ptr<VDF_Point>>)) ;; !{empty(%vector<shared_ptr<VDF_Point>>)}
never break(loop) ;; {empty(%vector<shared_ptr<VDF_Point>>)}
fn mmx::Node::get_vdf_peak_ex
never throw …
exit !{empty(find_next_vdf_points(get_peak()))} | !{get_peak()} | {ret = pair(get_peak().vdf_height, get_peak().vdf_output)}
exit !{get_peak()} | {empty(find_next_vdf_points(get_peak()))} | {ret = pair((get_peak().vdf_height + size(find_next_vdf_points(get_peak()))), back(find_next_vdf_points(get_peak())).output)}
exit {get_peak()} | {ret = pair(0, ctor(hash_t))}
exit {get_peak()} | {ret = pair(0, ctor(hash_t))}
exit !{empty(find_next_vdf_points(get_peak()))} | !{get_peak()} | {ret = pair(get_peak().vdf_height, get_peak().vdf_output)}
exit !{get_peak()} | {empty(find_next_vdf_points(get_peak()))} | {ret = pair((get_peak().vdf_height + size(find_next_vdf_points(get_peak()))), back(find_next_vdf_points(get_peak())).output)}
fn mmx::Node::calc_block_reward
never throw …
exit !{$0.height < @params.reward_activation} | {ret = 0}
exit !{empty($0.proof)} | {ret = 0}
exit {$0.height < @params.reward_activation} | {empty($0.proof)} | {ret = calc_final_block_reward(@params, (ite(((!{@params.min_reward} || {find_prev($0, 1, false)}) && (!{calc_min_reward_deduction(@params, find_prev($0, 1, false).txfee_buffer) < @params.min_reward} || !{find_prev($0, 1, false)})), 0, (-ite({find_prev($0, 1, false)}, calc_min_reward_deduction(@params, find_prev($0, 1, false).txfee_buffer), 0) + @params.min_reward)) + ite({find_prev($0, 1, false)}, find_prev($0, 1, false).base_reward, 0)), $1)}
exit !{empty($0.proof)} | {ret = 0}
exit !{$0.height < @params.reward_activation} | {empty($0.proof)} | {ret = 0}
exit {$0.height < @params.reward_activation} | {empty($0.proof)} | {ret = calc_final_block_reward(@params, (ite(((!{@params.min_reward} || {find_prev($0, 1, false)}) && (!{calc_min_reward_deduction(@params, find_prev($0, 1, false).txfee_buffer) < @params.min_reward} || !{find_prev($0, 1, false)})), 0, (-ite({find_prev($0, 1, false)}, calc_min_reward_deduction(@params, find_prev($0, 1, false).txfee_buffer), 0) + @params.min_reward)) + ite({find_prev($0, 1, false)}, find_prev($0, 1, false).base_reward, 0)), $1)}
fn mmx::Node::get_vdf_reward_winner
at at(%map<addr_t,unsignedint>, elem(find_prev(fold($0, find_prev(~, 1, false), @params.vdf_reward_interval), 1, false).vdf_reward_addr)) = (at(%map<addr_t,unsignedint>, elem(find_prev(fold($0, find_prev(~, 1, false), @params.vdf_reward_interval), 1, false).vdf_reward_addr)) + 1) ;; {find_prev(fold($0, find_prev(~, 1, false), @params.vdf_reward_interval), 1, false)}
each at(%map<addr_t,unsignedint>, elem(find_prev(fold($0, find_prev(~, 1, false), @params.vdf_reward_interval), 1, false).vdf_reward_addr)) = (at(%map<addr_t,unsignedint>, elem(find_prev(fold($0, find_prev(~, 1, false), @params.vdf_reward_interval), 1, false).vdf_reward_addr)) + 1) ;; {find_prev(fold($0, find_prev(~, 1, false), @params.vdf_reward_interval), 1, false)}
never break(find_prev(~0, 1, false).vdf_reward_addr)
never break(find_prev(fold($0, find_prev(~, 1, false), @params.vdf_reward_interval), 1, false).vdf_reward_addr)
never break(%map<addr_t,unsignedint>)
never throw …
value fold(0, ite((!{~? < elem(%map<addr_t,unsignedint>).second} && (!{ctor(hash_t, (elem(%map<addr_t,unsignedint>).first ++ fold($0, find_prev(~, 1, false), @params.vdf_reward_interval).proof_hash)) < ~?} || !{elem(%map<addr_t,unsignedint>).second == ~?})), ~, elem(%map<addr_t,unsignedint>).first), %map<addr_t,unsignedint>)
exit {ret = …}
exit !{find_prev(…, 1, false)} | {did at(%map<addr_t,unsignedint>, elem(find_prev(…, 1, false).vdf_reward_addr)) = (at(%map<addr_t,unsignedint>, elem(find_prev(…, 1, false).vdf_reward_addr)) + 1)}
at at(%map<addr_t,unsignedint>, elem(find_prev(…, 1, false).vdf_reward_addr)) = (at(%map<addr_t,unsignedint>, elem(find_prev(…, 1, false).vdf_reward_addr)) + 1) ;; {find_prev(…, 1, false)}
never break(loop) ;; !{find_prev(fold($0, find_prev(~, 1, false), @params.vdf_reward_interval), 1, false)}
fn mmx::Node::find_best_proof
never throw …
exit !{empty(at(@proof_map, $0))} | {ret = 0}
exit !{has(@proof_map, $0)} | {empty(at(@proof_map, $0))} | {ret = front(at(@proof_map, $0))}
exit {has(@proof_map, $0)} | {ret = 0}
exit !{empty(at(@proof_map, $0))} | {ret = 0}
exit {has(@proof_map, $0)} | {ret = 0}
exit !{has(@proof_map, $0)} | {empty(at(@proof_map, $0))} | {ret = front(at(@proof_map, $0))}
fn mmx::Node::get_all_depends sig=Executable
each insert(%set<addr_t>, elem($0.depends).second)
each insert(%set<addr_t>, begin(get_all_depends(elem(ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>))), 2)), end(get_all_depends(elem(ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>))), 2))) ;; !{@params.max_rcall_width < size(%set<addr_t>)}
never break($0.depends)
never break(ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>)))
raise {@params.max_rcall_width < size(%set<addr_t>)}
raise !{@params.max_rcall_width < size(%set<addr_t>)} ;; {@params.max_rcall_width < size(%set<addr_t>)}
exit !{@params.max_rcall_width < size(%set<addr_t>)}
exit {did insert(%set<addr_t>, begin(get_all_depends(elem(ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>))), 2)), end(get_all_depends(elem(ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>))), 2)))}
exit {did insert(%set<addr_t>, elem($0.depends).second)}
exit {ret = ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>))}
at insert(%set<addr_t>, elem($0.depends).second)
at insert(%set<addr_t>, begin(get_all_depends(elem(ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>))), 2)), end(get_all_depends(elem(ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>))), 2)))
fn mmx::Node::get_all_depends sig=addr_t
each find(@contract_depends, $0, %vector<addr_t>, 4294967295)
each insert(%set<addr_t>, begin(get_all_depends(elem(%vector<addr_t>), ($1 + 1))), end(get_all_depends(elem(%vector<addr_t>), ($1 + 1)))) ;; {find(@contract_depends, $0, %vector<addr_t>, 4294967295)}
each insert(%set<addr_t>, begin(%vector<addr_t>), end(%vector<addr_t>)) ;; {find(@contract_depends, $0, %vector<addr_t>, 4294967295)}
never break(%vector<addr_t>)
raise !{empty(%set<addr_t>)} ;; {@params.max_rcall_depth < $1}
raise !{@params.max_rcall_depth < $1} | {empty(%set<addr_t>)} ;; {@params.max_rcall_width < size(%set<addr_t>)}
exit !{@params.max_rcall_width < size(%set<addr_t>)}
exit {did find(@contract_depends, $0, %vector<addr_t>, 4294967295)}
exit {ret = ctor(vector<addr_t>, begin(%set<addr_t>), end(%set<addr_t>))}
exit !{@params.max_rcall_depth < $1} | {empty(%set<addr_t>)}
exit !{find(@contract_depends, $0, %vector<addr_t>, 4294967295)} | {did insert(%set<addr_t>, begin(%vector<addr_t>), end(%vector<addr_t>))}
exit !{find(@contract_depends, $0, %vector<addr_t>, 4294967295)} | {did insert(%set<addr_t>, begin(get_all_depends(elem(%vector<addr_t>), ($1 + 1))), end(get_all_depends(elem(%vector<addr_t>), ($1 + 1))))}
at find(@contract_depends, $0, %vector<addr_t>, 4294967295)
at insert(%set<addr_t>, begin(get_all_depends(elem(%vector<addr_t>), ($1 + 1))), end(get_all_depends(elem(%vector<addr_t>), ($1 + 1)))) ;; {find(@contract_depends, $0, %vector<addr_t>, 4294967295)}
at insert(%set<addr_t>, begin(%vector<addr_t>), end(%vector<addr_t>)) ;; {find(@contract_depends, $0, %vector<addr_t>, 4294967295)}
