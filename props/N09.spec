tus src/Node.cpp src/Node_update.cpp
fn mmx::Node::find_best_fork
never break(loop)
never lock(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.prev) ;; !{end(@fork_index) == fold(upper_bound(@fork_index, get_root().height), (~ + 1))}
never find_prev(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block, 1, false) ;; !{end(@fork_index) == fold(upper_bound(@fork_index, get_root().height), (~ + 1))} ;; {(get_root().height + 1) == fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block.height}
at fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.root = find_prev(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block, 1, false) ;; !{end(@fork_index) == fold(upper_bound(@fork_index, get_root().height), (~ + 1))} ;; {(get_root().height + 1) == fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block.height}
at fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.total_votes = fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.votes ;; !{end(@fork_index) == fold(upper_bound(@fork_index, get_root().height), (~ + 1))} ;; {(get_root().height + 1) == fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block.height}
at fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.is_all_proof_verified = fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.is_proof_verified ;; !{end(@fork_index) == fold(upper_bound(@fork_index, get_root().height), (~ + 1))} ;; {(get_root().height + 1) == fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block.height}
at fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.root = lock(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.prev).root ;; !{end(@fork_index) == fold(upper_bound(@fork_index, get_root().height), (~ + 1))} ;; !{(get_root().height + 1) == fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block.height} ;; {lock(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.prev)}
at fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.is_invalid = ({fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.is_invalid} || {lock(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.prev).is_invalid}) ;; !{end(@fork_index) == fold(upper_bound(@fork_index, get_root().height), (~ + 1))} ;; !{(get_root().height + 1) == fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block.height} ;; {lock(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.prev)}
at fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.total_votes = (fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.votes + lock(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.prev).total_votes) ;; !{end(@fork_index) == fold(upper_bound(@fork_index, get_root().height), (~ + 1))} ;; !{(get_root().height + 1) == fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block.height} ;; {lock(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.prev)}
at fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.is_all_proof_verified = ({fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.is_proof_verified} && {lock(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.prev).is_all_proof_verified}) ;; !{end(@fork_index) == fold(upper_bound(@fork_index, get_root().height), (~ + 1))} ;; !{(get_root().height + 1) == fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block.height} ;; {lock(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.prev)}
at fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.is_all_proof_verified = false ;; !{end(@fork_index) == fold(upper_bound(@fork_index, get_root().height), (~ + 1))} ;; !{(get_root().height + 1) == fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block.height} ;; !{lock(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.prev)}
each fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.root = find_prev(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block, 1, false) ;; !{end(@fork_index) == fold(upper_bound(@fork_index, get_root().height), (~ + 1))} ;; {(get_root().height + 1) == fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block.height}
each fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.total_votes = fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.votes ;; !{end(@fork_index) == fold(upper_bound(@fork_index, get_root().height), (~ + 1))} ;; {(get_root().height + 1) == fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block.height}
each fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.is_all_proof_verified = fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.is_proof_verified ;; !{end(@fork_index) == fold(upper_bound(@fork_index, get_root().height), (~ + 1))} ;; {(get_root().height + 1) == fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block.height}
each fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.root = lock(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.prev).root ;; !{end(@fork_index) == fold(upper_bound(@fork_index, get_root().height), (~ + 1))} ;; !{(get_root().height + 1) == fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block.height} ;; {lock(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.prev)}
each fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.is_invalid = ({fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.is_invalid} || {lock(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.prev).is_invalid}) ;; !{end(@fork_index) == fold(upper_bound(@fork_index, get_root().height), (~ + 1))} ;; !{(get_root().height + 1) == fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block.height} ;; {lock(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.prev)}
each fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.total_votes = (fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.votes + lock(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.prev).total_votes) ;; !{end(@fork_index) == fold(upper_bound(@fork_index, get_root().height), (~ + 1))} ;; !{(get_root().height + 1) == fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block.height} ;; {lock(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.prev)}
each fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.is_all_proof_verified = ({fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.is_proof_verified} && {lock(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.prev).is_all_proof_verified}) ;; !{end(@fork_index) == fold(upper_bound(@fork_index, get_root().height), (~ + 1))} ;; !{(get_root().height + 1) == fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block.height} ;; {lock(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.prev)}
each fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.is_all_proof_verified = false ;; !{end(@fork_index) == fold(upper_bound(@fork_index, get_root().height), (~ + 1))} ;; !{(get_root().height + 1) == fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.block.height} ;; !{lock(fold(upper_bound(@fork_index, get_root().height), (~ + 1)).second.prev)}
never throw …
value fold(upper_bound(@fork_index, get_root().height), (~ + 1))
value fold(0, ite((!{~?.second.is_all_proof_verified} || !{~?.second.root} || (!{empty(@sync_pending)} && !{get_root().hash == ~?.second.root.hash} && {begin(@sync_pending) < get_root().height}) || ((!{~.root.total_weight < ~?.second.root.total_weight} || {~?.second.block.total_weight < ~.block.total_weight}) && ((!{~.total_votes < ~?.second.total_votes} && (!{~.total_votes == ~?.second.total_votes} || (!{~.block.height < ~?.second.block.height} && (!{~.block.height == ~?.second.block.height} || !{~?.second.block.hash < ~.block.hash})))) || ({~?.second.block.total_weight < ~.block.total_weight} && {~?.second.root.total_weight < ~.root.total_weight})) && {~}) || {~?.second.is_invalid}), ~, ~?.second))
exit {end(@fork_index) == …}
exit {ret = …}
exit !{(get_root().height + 1) == ‥.second.block.height} | {did ‥.second.is_all_proof_verified = ‥.second.is_proof_verified}
exit !{(get_root().height + 1) == ‥.second.block.height} | {did ‥.second.root = find_prev(‥.second.block, 1, false)}
exit !{(get_root().height + 1) == ‥.second.block.height} | {did ‥.second.total_votes = ‥.second.votes}
exit !{lock(‥.second.prev)} | {(get_root().height + 1) == ‥.second.block.height} | {did ‥.second.is_all_proof_verified = ({‥.second.is_proof_verified} && {lock(‥.second.prev).is_all_proof_verified})}
exit !{lock(‥.second.prev)} | {(get_root().height + 1) == ‥.second.block.height} | {did ‥.second.is_invalid = ({‥.second.is_invalid} || {lock(‥.second.prev).is_invalid})}
exit !{lock(‥.second.prev)} | {(get_root().height + 1) == ‥.second.block.height} | {did ‥.second.root = lock(‥.second.prev).root}
exit !{lock(‥.second.prev)} | {(get_root().height + 1) == ‥.second.block.height} | {did ‥.second.total_votes = (‥.second.votes + lock(‥.second.prev).total_votes)}
exit {(get_root().height + 1) == ‥.second.block.height} | {did ‥.second.is_all_proof_verified = false} | {lock(‥.second.prev)}
at ‥.second.root = find_prev(‥.second.block, 1, false) ;; !{end(@fork_index) == …} ;; {(get_root().height + 1) == ‥.second.block.height}
at ‥.second.total_votes = ‥.second.votes ;; !{end(@fork_index) == …} ;; {(get_root().height + 1) == ‥.second.block.height}
at ‥.second.is_all_proof_verified = ‥.second.is_proof_verified ;; !{end(@fork_index) == …} ;; {(get_root().height + 1) == ‥.second.block.height}
at ‥.second.root = lock(‥.second.prev).root ;; !{end(@fork_index) == …} ;; !{(get_root().height + 1) == ‥.second.block.height} ;; {lock(‥.second.prev)}
at ‥.second.is_invalid = ({‥.second.is_invalid} || {lock(‥.second.prev).is_invalid}) ;; !{end(@fork_index) == …} ;; !{(get_root().height + 1) == ‥.second.block.height} ;; {lock(‥.second.prev)}
at ‥.second.total_votes = (‥.second.votes + lock(‥.second.prev).total_votes) ;; !{end(@fork_index) == …} ;; !{(get_root().height + 1) == ‥.second.block.height} ;; {lock(‥.second.prev)}
at ‥.second.is_all_proof_verified = ({‥.second.is_proof_verified} && {lock(‥.second.prev).is_all_proof_verified}) ;; !{end(@fork_index) == …} ;; !{(get_root().height + 1) == ‥.second.block.height} ;; {lock(‥.second.prev)}
at ‥.second.is_all_proof_verified = false ;; !{end(@fork_index) == …} ;; !{(get_root().height + 1) == ‥.second.block.height} ;; !{lock(‥.second.prev)}
fn mmx::Node::fork_to sig=const~mmx::hash_t
each fork_to(find_fork($0)) ;; !{$0 == @state_hash} ;; {find_fork($0)}
each revert((get_root().height + 1)) ;; !{$0 == @state_hash} ;; !{find_fork($0)} ;; {$0 == get_root().hash}
raise !{$0 == @state_hash} ;; !{find_fork($0)} ;; !{$0 == get_root().hash}
exit !{$0 == @state_hash} | {ret = 0}
exit !{find_fork($0)} | {$0 == @state_hash} | {ret = fork_to(find_fork($0))}
exit {find_fork($0)} | {ret = 0}
exit !{$0 == @state_hash} | {ret = 0}
exit !{find_fork($0)} | {$0 == @state_hash} | {did fork_to(find_fork($0))}
exit !{find_fork($0)} | {$0 == @state_hash} | {ret = fork_to(find_fork($0))}
exit {$0 == @state_hash} | {$0 == get_root().hash} | {find_fork($0)}
exit {$0 == @state_hash} | {did revert((get_root().height + 1))} | {find_fork($0)}
exit {$0 == @state_hash} | {find_fork($0)} | {ret = 0}
at fork_to(find_fork($0)) ;; !{$0 == @state_hash} ;; {find_fork($0)}
at revert((get_root().height + 1)) ;; !{$0 == @state_hash} ;; !{find_fork($0)} ;; {$0 == get_root().hash}
fn mmx::Node::fork_to sig=fork_t
at find(@height_map, fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false)).height, ctor(hash_t), 4294967295) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))}
at push_back(%vector<hash_t>, fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false)).hash) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))} ;; !{find(@height_map, fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false)).height, ctor(hash_t), 4294967295)} | !{fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false)).hash == out(find‥, fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false)).height, 4294967295)}
never find_prev(fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false)), 1, false) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))} ;; !{find(@height_map, fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false)).height, ctor(hash_t), 4294967295)} | !{fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false)).hash == out(find‥, fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false)).height, 4294967295)}
at reverse(begin(%vector<hash_t>), end(%vector<hash_t>)) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))}
at revert((fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false)).height + 1)) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))}
never get_block(elem(%vector<hash_t>)) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))}
at verify_proof(get_block(elem(%vector<hash_t>))) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))} ;; {get_block(elem(%vector<hash_t>))}
never validate(get_block(elem(%vector<hash_t>))) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))} ;; {get_block(elem(%vector<hash_t>))}
at apply(get_block(elem(%vector<hash_t>)), validate(get_block(elem(%vector<hash_t>)))) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))} ;; {get_block(elem(%vector<hash_t>))}
at @root = get_header(at(get_fork_line($0), 0).block.prev) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))}
never get_block(fold(@state_hash, get_block(~).prev)) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)}
at push_back(%vector<shared_ptr<Block>>, get_block(fold(@state_hash, get_block(~).prev))) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {get_block(fold(@state_hash, get_block(~).prev))}
at revert((fold(@root, elem(get_fork_line($0)).block, get_fork_line($0)).height + 1)) ;; !{empty(get_fork_line($0))} ;; {@root.hash == at(get_fork_line($0), 0).block.prev} ;; !{@state_hash == fold(@root, elem(get_fork_line($0)).block, get_fork_line($0)).hash}
each find(@height_map, fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false)).height, ctor(hash_t), 4294967295) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))}
each push_back(%vector<hash_t>, fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false)).hash) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))} ;; !{find(@height_map, fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false)).height, ctor(hash_t), 4294967295)} | !{fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false)).hash == out(find‥, fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false)).height, 4294967295)}
each reverse(begin(%vector<hash_t>), end(%vector<hash_t>)) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))}
each revert((fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false)).height + 1)) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))}
each verify_proof(get_block(elem(%vector<hash_t>))) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))} ;; {get_block(elem(%vector<hash_t>))}
each apply(get_block(elem(%vector<hash_t>)), validate(get_block(elem(%vector<hash_t>)))) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))} ;; {get_block(elem(%vector<hash_t>))}
each @root = get_header(at(get_fork_line($0), 0).block.prev) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))}
each push_back(%vector<shared_ptr<Block>>, get_block(fold(@state_hash, get_block(~).prev))) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {get_block(fold(@state_hash, get_block(~).prev))}
each reverse(begin(%vector<shared_ptr<Block>>), end(%vector<shared_ptr<Block>>)) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)}
each apply(elem(%vector<shared_ptr<Block>>), validate(elem(%vector<shared_ptr<Block>>))) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)}
each reset() ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)}
each find_fork(elem(get_fork_line($0)).block.hash).is_invalid = true ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {find_fork(elem(get_fork_line($0)).block.hash)}
each insert(%set<hash_t>, elem(get_fork_line(0)).block.hash) ;; !{empty(get_fork_line($0))} ;; {@root.hash == at(get_fork_line($0), 0).block.prev}
each revert((fold(@root, elem(get_fork_line($0)).block, get_fork_line($0)).height + 1)) ;; !{empty(get_fork_line($0))} ;; {@root.hash == at(get_fork_line($0), 0).block.prev} ;; !{@state_hash == fold(@root, elem(get_fork_line($0)).block, get_fork_line($0)).hash}
each elem(get_fork_line($0)).context = validate(elem(get_fork_line($0)).block) ;; !{empty(get_fork_line($0))} ;; {@state_hash == elem(get_fork_line($0)).block.prev} ;; !{elem(get_fork_line($0)).is_validated}
each elem(get_fork_line($0)).is_validated = true ;; !{empty(get_fork_line($0))} ;; {@state_hash == elem(get_fork_line($0)).block.prev} ;; !{elem(get_fork_line($0)).is_validated}
each elem(get_fork_line($0)).is_invalid = true ;; !{empty(get_fork_line($0))} ;; {@state_hash == elem(get_fork_line($0)).block.prev} ;; !{elem(get_fork_line($0)).is_validated}
each fork_to(@state_hash) ;; !{empty(get_fork_line($0))} ;; {@state_hash == elem(get_fork_line($0)).block.prev} ;; !{elem(get_fork_line($0)).is_validated}
each publish(elem(elem(get_fork_line($0)).vdf_points).proof, @output_verified_vdfs, 0) ;; !{empty(get_fork_line($0))} ;; {@state_hash == elem(get_fork_line($0)).block.prev} ;; !{elem(get_fork_line($0)).is_validated} ;; {@is_synced}
each publish(elem(get_fork_line($0)).block, @output_verified_blocks, 0) ;; !{empty(get_fork_line($0))} ;; {@state_hash == elem(get_fork_line($0)).block.prev} ;; !{elem(get_fork_line($0)).is_validated} ;; {@is_synced}
each apply(elem(get_fork_line($0)).block, elem(get_fork_line($0)).context) ;; !{empty(get_fork_line($0))} ;; {@state_hash == elem(get_fork_line($0)).block.prev}
never break(%vector<hash_t>)
never break(%vector<shared_ptr<Block>>)
never break(get_fork_line(0))
never break(elem(get_fork_line($0)).vdf_points)
raise !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; !{get_header(at(get_fork_line($0), 0).block.prev)}
raise !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; !{fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))}
raise !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))} ;; !{get_block(elem(%vector<hash_t>))}
value fold(@state_hash, get_block(~).prev)
value fold(@root, elem(get_fork_line($0)).block, get_fork_line($0))
value fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))
exit !{@root.hash == at(get_fork_line($0), 0).block.prev} | !{@state_hash == fold(@root, elem(get_fork_line($0)).block, get_fork_line($0)).hash} | {ret = 0}
exit !{@root.hash == at(get_fork_line($0), 0).block.prev} | {@state_hash == fold(@root, elem(get_fork_line($0)).block, get_fork_line($0)).hash} | {empty(get_fork_line($0))} | {ret = fold(@root, elem(get_fork_line($0)).block, get_fork_line($0))}
exit !{empty(get_fork_line($0))} | {ret = 0}
exit {@root.hash == at(get_fork_line($0), 0).block.prev} | {empty(get_fork_line($0))} | {ret = fold(get_header(at(get_fork_line($0), 0).block.prev), find_prev(~, 1, false))}
exit !{empty(get_fork_line($0))} | {ret = 0}
exit !{@root.hash == at(get_fork_line($0), 0).block.prev} | {did insert(%set<hash_t>, elem(get_fork_line(0)).block.hash)} | {empty(get_fork_line($0))}
exit !{@state_hash == elem(get_fork_line($0)).block.prev} | {did apply(elem(get_fork_line($0)).block, elem(get_fork_line($0)).context)} | {empty(get_fork_line($0))}
exit {@root.hash == at(get_fork_line($0), 0).block.prev} | {did @root = get_header(at(get_fork_line($0), 0).block.prev)} | {empty(get_fork_line($0))}
exit {@root.hash == at(get_fork_line($0), 0).block.prev} | {did apply(get_block(elem(%vector<hash_t>)), validate(get_block(elem(%vector<hash_t>))))} | {empty(get_fork_line($0))}
exit {@root.hash == at(get_fork_line($0), 0).block.prev} | {did find(@height_map, ‥.height, ctor(hash_t), 4294967295)} | {empty(get_fork_line($0))}
exit {@root.hash == at(get_fork_line($0), 0).block.prev} | {did reverse(begin(%vector<hash_t>), end(%vector<hash_t>))} | {empty(get_fork_line($0))}
exit {@root.hash == at(get_fork_line($0), 0).block.prev} | {did revert((‥.height + 1))} | {empty(get_fork_line($0))}
exit {@root.hash == at(get_fork_line($0), 0).block.prev} | {did verify_proof(get_block(elem(%vector<hash_t>)))} | {empty(get_fork_line($0))}
exit {@root.hash == at(get_fork_line($0), 0).block.prev} | {empty(get_fork_line($0))} | {get_block(elem(%vector<hash_t>))}
exit {@root.hash == at(get_fork_line($0), 0).block.prev} | {empty(get_fork_line($0))} | {get_header(at(get_fork_line($0), 0).block.prev)}
exit {@root.hash == at(get_fork_line($0), 0).block.prev} | {empty(get_fork_line($0))} | {ret = …}
exit !{@root.hash == at(get_fork_line($0), 0).block.prev} | !{@state_hash == ‥.hash} | {empty(get_fork_line($0))} | {ret = 0}
exit !{@root.hash == at(get_fork_line($0), 0).block.prev} | {@state_hash == ‥.hash} | {did revert((‥.height + 1))} | {empty(get_fork_line($0))}
exit !{@root.hash == at(get_fork_line($0), 0).block.prev} | {@state_hash == ‥.hash} | {empty(get_fork_line($0))} | {ret = …}
exit !{@state_hash == elem(get_fork_line($0)).block.prev} | {did elem(get_fork_line($0)).context = validate(elem(get_fork_line($0)).block)} | {elem(get_fork_line($0)).is_validated} | {empty(get_fork_line($0))}
exit !{@state_hash == elem(get_fork_line($0)).block.prev} | {did elem(get_fork_line($0)).is_validated = true} | {elem(get_fork_line($0)).is_validated} | {empty(get_fork_line($0))}
exit {@root.hash == at(get_fork_line($0), 0).block.prev} | {did push_back(%vector<hash_t>, ‥.hash)} | {empty(get_fork_line($0))} | {find(@height_map, ‥.height, ctor(hash_t), 4294967295)}
exit {@root.hash == at(get_fork_line($0), 0).block.prev} | {did push_back(%vector<hash_t>, ‥.hash)} | {empty(get_fork_line($0))} | {‥.hash == …}
exit !{@is_synced} | !{@state_hash == elem(get_fork_line($0)).block.prev} | {did publish(elem(elem(get_fork_line($0)).vdf_points).proof, @output_verified_vdfs, 0)} | {elem(get_fork_line($0)).is_validated} | {empty(get_fork_line($0))}
exit !{@is_synced} | !{@state_hash == elem(get_fork_line($0)).block.prev} | {did publish(elem(get_fork_line($0)).block, @output_verified_blocks, 0)} | {elem(get_fork_line($0)).is_validated} | {empty(get_fork_line($0))}
at find(@height_map, ‥.height, ctor(hash_t), 4294967295) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {…}
at push_back(%vector<hash_t>, ‥.hash) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {…} ;; !{find(@height_map, ‥.height, ctor(hash_t), 4294967295)} | !{‥.hash == …}
at reverse(begin(%vector<hash_t>), end(%vector<hash_t>)) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {…}
at revert((‥.height + 1)) ;; !{empty(get_fork_line($0))}
at verify_proof(get_block(elem(%vector<hash_t>))) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {…} ;; {get_block(elem(%vector<hash_t>))}
at apply(get_block(elem(%vector<hash_t>)), validate(get_block(elem(%vector<hash_t>)))) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {…} ;; {get_block(elem(%vector<hash_t>))}
at @root = get_header(at(get_fork_line($0), 0).block.prev) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {…} ;; {get_block(elem(%vector<hash_t>))}
at push_back(%vector<shared_ptr<Block>>, get_block(…)) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {get_block(…)}
at reverse(begin(%vector<shared_ptr<Block>>), end(%vector<shared_ptr<Block>>)) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)}
at apply(elem(%vector<shared_ptr<Block>>), validate(elem(%vector<shared_ptr<Block>>))) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)}
at reset() ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)}
at find_fork(elem(get_fork_line($0)).block.hash).is_invalid = true ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)} ;; {find_fork(elem(get_fork_line($0)).block.hash)}
at insert(%set<hash_t>, elem(get_fork_line(0)).block.hash) ;; !{empty(get_fork_line($0))} ;; {@root.hash == at(get_fork_line($0), 0).block.prev}
at elem(get_fork_line($0)).context = validate(elem(get_fork_line($0)).block) ;; !{empty(get_fork_line($0))} ;; {@state_hash == elem(get_fork_line($0)).block.prev} ;; !{elem(get_fork_line($0)).is_validated} ;; {@root.hash == at(get_fork_line($0), 0).block.prev} | {get_block(elem(%vector<hash_t>))} ;; {@root.hash == at(get_fork_line($0), 0).block.prev} | {get_header(at(get_fork_line($0), 0).block.prev)}
at elem(get_fork_line($0)).is_validated = true ;; !{empty(get_fork_line($0))} ;; {@state_hash == elem(get_fork_line($0)).block.prev} ;; !{elem(get_fork_line($0)).is_validated} ;; {@root.hash == at(get_fork_line($0), 0).block.prev} | {get_block(elem(%vector<hash_t>))} ;; {@root.hash == at(get_fork_line($0), 0).block.prev} | {get_header(at(get_fork_line($0), 0).block.prev)}
at elem(get_fork_line($0)).is_invalid = true ;; !{empty(get_fork_line($0))} ;; {@state_hash == elem(get_fork_line($0)).block.prev} ;; !{elem(get_fork_line($0)).is_validated} ;; {@root.hash == at(get_fork_line($0), 0).block.prev} | {get_block(elem(%vector<hash_t>))} ;; {@root.hash == at(get_fork_line($0), 0).block.prev} | {get_header(at(get_fork_line($0), 0).block.prev)}
at fork_to(@state_hash) ;; !{empty(get_fork_line($0))} ;; {@state_hash == elem(get_fork_line($0)).block.prev} ;; !{elem(get_fork_line($0)).is_validated} ;; {@root.hash == at(get_fork_line($0), 0).block.prev} | {get_block(elem(%vector<hash_t>))} ;; {@root.hash == at(get_fork_line($0), 0).block.prev} | {get_header(at(get_fork_line($0), 0).block.prev)}
at publish(elem(elem(get_fork_line($0)).vdf_points).proof, @output_verified_vdfs, 0) ;; !{empty(get_fork_line($0))} ;; {@state_hash == elem(get_fork_line($0)).block.prev} ;; !{elem(get_fork_line($0)).is_validated} ;; {@is_synced} ;; {@root.hash == at(get_fork_line($0), 0).block.prev} | {get_block(elem(%vector<hash_t>))} ;; {@root.hash == at(get_fork_line($0), 0).block.prev} | {get_header(at(get_fork_line($0), 0).block.prev)}
at publish(elem(get_fork_line($0)).block, @output_verified_blocks, 0) ;; !{empty(get_fork_line($0))} ;; {@state_hash == elem(get_fork_line($0)).block.prev} ;; !{elem(get_fork_line($0)).is_validated} ;; {@is_synced} ;; {@root.hash == at(get_fork_line($0), 0).block.prev} | {get_block(elem(%vector<hash_t>))} ;; {@root.hash == at(get_fork_line($0), 0).block.prev} | {get_header(at(get_fork_line($0), 0).block.prev)}
at apply(elem(get_fork_line($0)).block, elem(get_fork_line($0)).context) ;; !{empty(get_fork_line($0))} ;; {@state_hash == elem(get_fork_line($0)).block.prev} ;; {@root.hash == at(get_fork_line($0), 0).block.prev} | {get_block(elem(%vector<hash_t>))} ;; {@root.hash == at(get_fork_line($0), 0).block.prev} | {get_header(at(get_fork_line($0), 0).block.prev)}
never break(loop) ;; !{empty(get_fork_line($0))} ;; !{@root.hash == at(get_fork_line($0), 0).block.prev} ;; {get_header(at(get_fork_line($0), 0).block.prev)}
never break(get_fork_line($0)) ;; !{empty(get_fork_line($0))} ;; {@root.hash == at(get_fork_line($0), 0).block.prev} ;; !{has(%set<hash_t>, elem(get_fork_line($0)).block.hash)}
fn mmx::Node::get_fork_line
at push_back(%vector<shared_ptr<Node::fork_t>>, fold(ite({$0}, $0, find_fork(@state_hash)), lock(~.prev))) ;; !{@state_hash == get_root().hash} | {$0} ;; {fold(ite({$0}, $0, find_fork(@state_hash)), lock(~.prev))}
never find_prev(fold(ite({$0}, $0, find_fork(@state_hash)), lock(~.prev)).block, 1, false) ;; !{@state_hash == get_root().hash} | {$0} ;; {fold(ite({$0}, $0, find_fork(@state_hash)), lock(~.prev))} ;; {(get_root().height + 1) == fold(ite({$0}, $0, find_fork(@state_hash)), lock(~.prev)).block.height}
at reverse(begin(%vector<shared_ptr<Node::fork_t>>), end(%vector<shared_ptr<Node::fork_t>>)) ;; !{@state_hash == get_root().hash} | {$0} ;; {fold(ite({$0}, $0, find_fork(@state_hash)), lock(~.prev))} ;; {(get_root().height + 1) == fold(ite({$0}, $0, find_fork(@state_hash)), lock(~.prev)).block.height} ;; {find_prev(fold(ite({$0}, $0, find_fork(@state_hash)), lock(~.prev)).block, 1, false)}
never lock(fold(ite({$0}, $0, find_fork(@state_hash)), lock(~.prev)).prev) ;; !{@state_hash == get_root().hash} | {$0} ;; {fold(ite({$0}, $0, find_fork(@state_hash)), lock(~.prev))} ;; !{(get_root().height + 1) == fold(ite({$0}, $0, find_fork(@state_hash)), lock(~.prev)).block.height} | !{find_prev(fold(ite({$0}, $0, find_fork(@state_hash)), lock(~.prev)).block, 1, false)}
each push_back(%vector<shared_ptr<Node::fork_t>>, fold(ite({$0}, $0, find_fork(@state_hash)), lock(~.prev))) ;; !{@state_hash == get_root().hash} | {$0} ;; {fold(ite({$0}, $0, find_fork(@state_hash)), lock(~.prev))}
each reverse(begin(%vector<shared_ptr<Node::fork_t>>), end(%vector<shared_ptr<Node::fork_t>>)) ;; !{@state_hash == get_root().hash} | {$0} ;; {fold(ite({$0}, $0, find_fork(@state_hash)), lock(~.prev))} ;; {(get_root().height + 1) == fold(ite({$0}, $0, find_fork(@state_hash)), lock(~.prev)).block.height} ;; {find_prev(fold(ite({$0}, $0, find_fork(@state_hash)), lock(~.prev)).block, 1, false)}
raise !{@state_hash == get_root().hash} | {$0}
value fold(ite({$0}, $0, find_fork(@state_hash)), lock(~.prev))
exit !{$0} | {ret = %vector<shared_ptr<Node::fork_t>>}
exit !{@state_hash == get_root().hash} | {$0} | {ret = ctor(vector<shared_ptr<Node::fork_t>>)}
exit {@state_hash == get_root().hash} | {ret = %vector<shared_ptr<Node::fork_t>>}
exit !{$0} | {(get_root().height + 1) == ‥.block.height}
exit !{$0} | {did push_back(%vector<shared_ptr<Node::fork_t>>, …)}
exit !{$0} | {did reverse(begin(%vector<shared_ptr<Node::fork_t>>), end(%vector<shared_ptr<Node::fork_t>>))}
exit !{$0} | {find_prev(‥.block, 1, false)}
exit !{$0} | {ret = %vector<shared_ptr<Node::fork_t>>}
exit {(get_root().height + 1) == ‥.block.height} | {@state_hash == get_root().hash}
exit {@state_hash == get_root().hash} | {did push_back(%vector<shared_ptr<Node::fork_t>>, …)}
exit {@state_hash == get_root().hash} | {did reverse(begin(%vector<shared_ptr<Node::fork_t>>), end(%vector<shared_ptr<Node::fork_t>>))}
exit {@state_hash == get_root().hash} | {find_prev(‥.block, 1, false)}
exit {@state_hash == get_root().hash} | {ret = %vector<shared_ptr<Node::fork_t>>}
exit !{@state_hash == get_root().hash} | {$0} | {ret = ctor(vector<shared_ptr<Node::fork_t>>)}
at push_back(%vector<shared_ptr<Node::fork_t>>, …) ;; !{@state_hash == get_root().hash} | {$0} ;; {…}
at reverse(begin(%vector<shared_ptr<Node::fork_t>>), end(%vector<shared_ptr<Node::fork_t>>)) ;; !{@state_hash == get_root().hash} | {$0} ;; {…} ;; {(get_root().height + 1) == ‥.block.height} ;; {find_prev(‥.block, 1, false)}
never break(loop) ;; !{@state_hash == get_root().hash} | {$0}
fn mmx::Node::vote_for_block
each %shared_ptr<ValidatorVote>.hash = $0.block.hash ;; {find_value(@farmer_keys, elem($0.validators).first)}
each %shared_ptr<ValidatorVote>.farmer_key = elem($0.validators).first ;; {find_value(@farmer_keys, elem($0.validators).first)}
each sign_vote(ctor(FarmerClient, find_value(@farmer_keys, elem($0.validators).first)), %shared_ptr<ValidatorVote>) ;; {find_value(@farmer_keys, elem($0.validators).first)}
each %shared_ptr<ValidatorVote>.farmer_sig = sign_vote(ctor(FarmerClient, find_value(@farmer_keys, elem($0.validators).first)), %shared_ptr<ValidatorVote>) ;; {find_value(@farmer_keys, elem($0.validators).first)}
each %shared_ptr<ValidatorVote>.content_hash = calc_content_hash(%shared_ptr<ValidatorVote>) ;; {find_value(@farmer_keys, elem($0.validators).first)}
each publish(%shared_ptr<ValidatorVote>, @output_votes, 0) ;; {find_value(@farmer_keys, elem($0.validators).first)}
each publish(%shared_ptr<ValidatorVote>, @output_verified_votes, 0) ;; {find_value(@farmer_keys, elem($0.validators).first)}
each at(@voted_blocks, $0.block.prev) = pair($0.block.hash, get_time_ms()) ;; {find_value(@farmer_keys, elem($0.validators).first)}
never break($0.validators)
never throw …
exit !{find_value(@farmer_keys, elem($0.validators).first)} | {did %shared_ptr<ValidatorVote>.farmer_key = elem($0.validators).first}
exit !{find_value(@farmer_keys, elem($0.validators).first)} | {did %shared_ptr<ValidatorVote>.hash = $0.block.hash}
exit !{find_value(@farmer_keys, elem($0.validators).first)} | {did at(@voted_blocks, $0.block.prev) = pair($0.block.hash, get_time_ms())}
at %shared_ptr<ValidatorVote>.hash = $0.block.hash ;; {find_value(@farmer_keys, elem($0.validators).first)}
at %shared_ptr<ValidatorVote>.farmer_key = elem($0.validators).first ;; {find_value(@farmer_keys, elem($0.validators).first)}
at sign_vote(ctor(FarmerClient, find_value(@farmer_keys, elem($0.validators).first)), %shared_ptr<ValidatorVote>) ;; {find_value(@farmer_keys, elem($0.validators).first)}
at %shared_ptr<ValidatorVote>.farmer_sig = sign_vote(ctor(FarmerClient, find_value(@farmer_keys, elem($0.validators).first)), %shared_ptr<ValidatorVote>) ;; {find_value(@farmer_keys, elem($0.validators).first)}
at %shared_ptr<ValidatorVote>.content_hash = calc_content_hash(%shared_ptr<ValidatorVote>) ;; {find_value(@farmer_keys, elem($0.validators).first)}
at publish(%shared_ptr<ValidatorVote>, @output_votes, 0) ;; {find_value(@farmer_keys, elem($0.validators).first)}
at publish(%shared_ptr<ValidatorVote>, @output_verified_votes, 0) ;; {find_value(@farmer_keys, elem($0.validators).first)}
at at(@voted_blocks, $0.block.prev) = pair($0.block.hash, get_time_ms()) ;; {find_value(@farmer_keys, elem($0.validators).first)}
fn mmx::Node::get_validators
never break(loop)
at insert(%set<pubkey_t>, at(fold(find_prev($0, @params.commit_delay, false), find_prev(~, 1, false)).proof, 0).farmer_key) ;; {fold(find_prev($0, @params.commit_delay, false), find_prev(~, 1, false))} ;; {fold(0, (~ + 1)) < @max_history} ;; {size(%set<pubkey_t>) < @params.max_validators} ;; !{empty(fold(find_prev($0, @params.commit_delay, false), find_prev(~, 1, false)).proof)}
never find_prev(fold(find_prev($0, @params.commit_delay, false), find_prev(~, 1, false)), 1, false) ;; {fold(find_prev($0, @params.commit_delay, false), find_prev(~, 1, false))} ;; {fold(0, (~ + 1)) < @max_history} ;; {size(%set<pubkey_t>) < @params.max_validators}
each insert(%set<pubkey_t>, at(fold(find_prev($0, @params.commit_delay, false), find_prev(~, 1, false)).proof, 0).farmer_key) ;; {fold(find_prev($0, @params.commit_delay, false), find_prev(~, 1, false))} ;; {fold(0, (~ + 1)) < @max_history} ;; {size(%set<pubkey_t>) < @params.max_validators} ;; !{empty(fold(find_prev($0, @params.commit_delay, false), find_prev(~, 1, false)).proof)}
never throw …
value fold(0, (~ + 1))
value fold(find_prev($0, @params.commit_delay, false), find_prev(~, 1, false))
exit {ret = %set<pubkey_t>}
exit {did insert(%set<pubkey_t>, at(‥.proof, 0).farmer_key)} | {empty(‥.proof)}
at insert(%set<pubkey_t>, at(‥.proof, 0).farmer_key) ;; {…} ;; {‥ < @max_history} ;; {size(%set<pubkey_t>) < @params.max_validators} ;; !{empty(‥.proof)}
fn mmx::Node::find_prev_fork
never break(loop)
never lock(fold($0, lock(~.prev)).prev) ;; {fold($0, lock(~.prev))} ;; {fold(0, (~ + 1)) < $1}
never throw …
value fold(0, (~ + 1))
value fold($0, lock(~.prev))
exit {ret = …}
fn mmx::Node::find_prev
never break(loop)
never get_header(fold($0, get_header(~.prev)).prev) ;; {fold($0, get_header(~.prev))} ;; {fold(0, (~ + 1)) < $1} ;; !{$2} | {fold($0, get_header(~.prev)).height}
never throw …
value fold(0, (~ + 1))
value fold($0, get_header(~.prev))
exit {ret = …}
fn mmx::Node::verify_votes
each at(find_fork(elem(@vote_queue).first.hash).validators, elem(@vote_queue).first.farmer_key) = true ;; !{(3 * @params.block_interval_ms) < (-elem(@vote_queue).second + get_time_ms())} ;; {find_fork(elem(@vote_queue).first.hash)} ;; {find_fork(elem(@vote_queue).first.hash).is_proof_verified} ;; {find_best_proof(at(find_fork(elem(@vote_queue).first.hash).block.proof, 0).challenge)} ;; {find_best_proof(at(find_fork(elem(@vote_queue).first.hash).block.proof, 0).challenge).hash == find_fork(elem(@vote_queue).first.hash).block.proof_hash} ;; {has(find_fork(elem(@vote_queue).first.hash).validators, elem(@vote_queue).first.farmer_key)} ;; !{at(find_fork(elem(@vote_queue).first.hash).validators, elem(@vote_queue).first.farmer_key)}
each find_fork(elem(@vote_queue).first.hash).votes = (find_fork(elem(@vote_queue).first.hash).votes + 1) ;; !{(3 * @params.block_interval_ms) < (-elem(@vote_queue).second + get_time_ms())} ;; {find_fork(elem(@vote_queue).first.hash)} ;; {find_fork(elem(@vote_queue).first.hash).is_proof_verified} ;; {find_best_proof(at(find_fork(elem(@vote_queue).first.hash).block.proof, 0).challenge)} ;; {find_best_proof(at(find_fork(elem(@vote_queue).first.hash).block.proof, 0).challenge).hash == find_fork(elem(@vote_queue).first.hash).block.proof_hash} ;; {has(find_fork(elem(@vote_queue).first.hash).validators, elem(@vote_queue).first.farmer_key)} ;; !{at(find_fork(elem(@vote_queue).first.hash).validators, elem(@vote_queue).first.farmer_key)}
each publish(elem(@vote_queue).first, @output_verified_votes, 0) ;; !{(3 * @params.block_interval_ms) < (-elem(@vote_queue).second + get_time_ms())} ;; {find_fork(elem(@vote_queue).first.hash)} ;; {find_fork(elem(@vote_queue).first.hash).is_proof_verified} ;; {find_best_proof(at(find_fork(elem(@vote_queue).first.hash).block.proof, 0).challenge)} ;; {find_best_proof(at(find_fork(elem(@vote_queue).first.hash).block.proof, 0).challenge).hash == find_fork(elem(@vote_queue).first.hash).block.proof_hash} ;; {has(find_fork(elem(@vote_queue).first.hash).validators, elem(@vote_queue).first.farmer_key)} ;; !{at(find_fork(elem(@vote_queue).first.hash).validators, elem(@vote_queue).first.farmer_key)}
each push_back(%vector<pair<shared_ptr<ValidatorVote>,long>>, elem(@vote_queue)) ;; !{(3 * @params.block_interval_ms) < (-elem(@vote_queue).second + get_time_ms())}
each @vote_queue = %vector<pair<shared_ptr<ValidatorVote>,long>>
never break(@vote_queue)
raise !{(3 * @params.block_interval_ms) < (-elem(@vote_queue).second + get_time_ms())} ;; {find_fork(elem(@vote_queue).first.hash)} ;; {find_fork(elem(@vote_queue).first.hash).is_proof_verified} ;; !{find_best_proof(at(find_fork(elem(@vote_queue).first.hash).block.proof, 0).challenge).hash == find_fork(elem(@vote_queue).first.hash).block.proof_hash} | !{find_best_proof(at(find_fork(elem(@vote_queue).first.hash).block.proof, 0).challenge)}
raise !{(3 * @params.block_interval_ms) < (-elem(@vote_queue).second + get_time_ms())} ;; {find_fork(elem(@vote_queue).first.hash)} ;; {find_fork(elem(@vote_queue).first.hash).is_proof_verified} ;; {find_best_proof(at(find_fork(elem(@vote_queue).first.hash).block.proof, 0).challenge)} ;; {find_best_proof(at(find_fork(elem(@vote_queue).first.hash).block.proof, 0).challenge).hash == find_fork(elem(@vote_queue).first.hash).block.proof_hash} ;; !{has(find_fork(elem(@vote_queue).first.hash).validators, elem(@vote_queue).first.farmer_key)}
exit {did @vote_queue = %vector<pair<shared_ptr<ValidatorVote>,long>>}
at at(find_fork(elem(@vote_queue).first.hash).validators, elem(@vote_queue).first.farmer_key) = true ;; !{(3 * @params.block_interval_ms) < (-elem(@vote_queue).second + get_time_ms())} ;; {find_fork(elem(@vote_queue).first.hash)} ;; {find_fork(elem(@vote_queue).first.hash).is_proof_verified} ;; {find_best_proof(at(find_fork(elem(@vote_queue).first.hash).block.proof, 0).challenge)} ;; {find_best_proof(at(find_fork(elem(@vote_queue).first.hash).block.proof, 0).challenge).hash == find_fork(elem(@vote_queue).first.hash).block.proof_hash} ;; {has(find_fork(elem(@vote_queue).first.hash).validators, elem(@vote_queue).first.farmer_key)} ;; !{at(find_fork(elem(@vote_queue).first.hash).validators, elem(@vote_queue).first.farmer_key)}
at find_fork(elem(@vote_queue).first.hash).votes = (find_fork(elem(@vote_queue).first.hash).votes + 1) ;; !{(3 * @params.block_interval_ms) < (-elem(@vote_queue).second + get_time_ms())} ;; {find_fork(elem(@vote_queue).first.hash)} ;; {find_fork(elem(@vote_queue).first.hash).is_proof_verified} ;; {find_best_proof(at(find_fork(elem(@vote_queue).first.hash).block.proof, 0).challenge)} ;; {find_best_proof(at(find_fork(elem(@vote_queue).first.hash).block.proof, 0).challenge).hash == find_fork(elem(@vote_queue).first.hash).block.proof_hash} ;; {has(find_fork(elem(@vote_queue).first.hash).validators, elem(@vote_queue).first.farmer_key)} ;; !{at(find_fork(elem(@vote_queue).first.hash).validators, elem(@vote_queue).first.farmer_key)}
at publish(elem(@vote_queue).first, @output_verified_votes, 0) ;; !{(3 * @params.block_interval_ms) < (-elem(@vote_queue).second + get_time_ms())} ;; {find_fork(elem(@vote_queue).first.hash)} ;; {find_fork(elem(@vote_queue).first.hash).is_proof_verified} ;; {find_best_proof(at(find_fork(elem(@vote_queue).first.hash).block.proof, 0).challenge)} ;; {find_best_proof(at(find_fork(elem(@vote_queue).first.hash).block.proof, 0).challenge).hash == find_fork(elem(@vote_queue).first.hash).block.proof_hash} ;; {has(find_fork(elem(@vote_queue).first.hash).validators, elem(@vote_queue).first.farmer_key)} ;; !{at(find_fork(elem(@vote_queue).first.hash).validators, elem(@vote_queue).first.farmer_key)}
at push_back(%vector<pair<shared_ptr<ValidatorVote>,long>>, elem(@vote_queue)) ;; !{(3 * @params.block_interval_ms) < (-elem(@vote_queue).second + get_time_ms())} ;; !{find_fork(elem(@vote_queue).first.hash).is_proof_verified} | !{find_fork(elem(@vote_queue).first.hash)}
at @vote_queue = %vector<pair<shared_ptr<ValidatorVote>,long>>
