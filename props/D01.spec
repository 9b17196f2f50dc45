tus src/DataBase.cpp
fn mmx::Table::insert
each write_entry_sum(@write_log.out, @curr_version, $0, $1) ;; {$0} ;; {$1} ;; !{@write_lock}
each insert_entry(@curr_version, $0, $1) ;; {$0} ;; {$1} ;; !{@write_lock}
raise !{$0} | !{$1}
raise {$0} ;; {$1} ;; {@write_lock}
exit !{@write_lock}
exit {$0}
exit {$1}
exit {did insert_entry(@curr_version, $0, $1)}
exit {did write_entry_sum(@write_log.out, @curr_version, $0, $1)}
at throw logic_error
at lock_guard(@mutex) ;; {$0} ;; {$1}
at throw logic_error
at write_entry_sum(@write_log.out, @curr_version, $0, $1) ;; !{@write_lock} ;; {$0} ;; {$1}
at insert_entry(@curr_version, $0, $1) ;; !{@write_lock} ;; {$0} ;; {$1} ;; {did write_entry_sum(@write_log.out, @curr_version, $0, $1)}
fn mmx::Table::insert_entry
each @mem_block_size = (-$1.size + -at(@mem_block, pair($1, $0)).size + @mem_block_size) ;; {at(@mem_block, pair($1, $0))}
each at(@mem_block, pair($1, $0)) = $2
each at(@mem_index, $1) = pair($2, $0)
each @mem_block_size = ($1.size + $2.size + @mem_block_size)
never throw …
exit {did @mem_block_size = ($1.size + $2.size + @mem_block_size)}
exit {did at(@mem_block, pair($1, $0)) = $2}
exit {did at(@mem_index, $1) = pair($2, $0)}
exit !{at(@mem_block, pair($1, $0))} | {did @mem_block_size = (-$1.size + -at(@mem_block, pair($1, $0)).size + @mem_block_size)}
at @mem_block_size = (-$1.size + -at(@mem_block, pair($1, $0)).size + @mem_block_size) ;; {at(@mem_block, pair($1, $0))}
at at(@mem_block, pair($1, $0)) = $2
at at(@mem_index, $1) = pair($2, $0)
at @mem_block_size = ($1.size + $2.size + @mem_block_size)
fn mmx::Table::find sig=(std::shared_ptr<mmx::db_val_t>,~const
never find(fold(rbegin(@blocks), (~ + 1)), $0, $1) ;; {$0} ;; !{fold(rbegin(@blocks), (~ + 1)) == rend(@blocks)} ;; !{$1 < fold(rbegin(@blocks), (~ + 1)).min_version}
never throw …
value fold(rbegin(@blocks), (~ + 1))
value fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1))
exit {$0} | {ret = 0}
exit !{$0} | !{$1 < fold(rbegin(@blocks), (~ + 1)).min_version} | {fold(rbegin(@blocks), (~ + 1)) == rend(@blocks)} | {has(@mem_index, $0)}
exit !{$0} | !{$1 < fold(rbegin(@blocks), (~ + 1)).min_version} | {has(@mem_index, $0)} | {ret = 0}
exit !{$0} | !{fold(rbegin(@blocks), (~ + 1)) == rend(@blocks)} | {has(@mem_index, $0)} | {ret = 0}
exit !{$0} | !{has(@mem_index, $0)} | {$1 < at(@mem_index, $0).second} | {ret = at(@mem_index, $0).first}
exit !{$0} | {fold(rbegin(@blocks), (~ + 1)) == rend(@blocks)} | {has(@mem_index, $0)} | {has(fold(rbegin(@blocks), (~ + 1)), $0)}
exit !{$0} | {has(@mem_index, $0)} | {has(fold(rbegin(@blocks), (~ + 1)), $0)} | {ret = 0}
exit !{$0} | !{$1 < at(@mem_index, $0).second} | !{$1 < fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1)).first.second} | !{$1 < fold(rbegin(@blocks), (~ + 1)).min_version} | {fold(rbegin(@blocks), (~ + 1)) == rend(@blocks)}
exit !{$0} | !{$1 < at(@mem_index, $0).second} | !{$1 < fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1)).first.second} | !{$1 < fold(rbegin(@blocks), (~ + 1)).min_version} | {ret = 0}
exit !{$0} | !{$1 < at(@mem_index, $0).second} | !{$1 < fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1)).first.second} | !{fold(rbegin(@blocks), (~ + 1)) == rend(@blocks)} | {ret = 0}
exit !{$0} | !{$1 < at(@mem_index, $0).second} | !{$1 < fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1)).first.second} | {fold(rbegin(@blocks), (~ + 1)) == rend(@blocks)} | {has(fold(rbegin(@blocks), (~ + 1)), $0)}
exit !{$0} | !{$1 < at(@mem_index, $0).second} | !{$1 < fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1)).first.second} | {has(fold(rbegin(@blocks), (~ + 1)), $0)} | {ret = 0}
exit !{$0} | !{$1 < at(@mem_index, $0).second} | !{$1 < fold(rbegin(@blocks), (~ + 1)).min_version} | !{end(@mem_block) == fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1))} | {fold(rbegin(@blocks), (~ + 1)) == rend(@blocks)}
exit !{$0} | !{$1 < at(@mem_index, $0).second} | !{$1 < fold(rbegin(@blocks), (~ + 1)).min_version} | !{end(@mem_block) == fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1))} | {ret = 0}
exit !{$0} | !{$1 < at(@mem_index, $0).second} | !{$1 < fold(rbegin(@blocks), (~ + 1)).min_version} | {$0 == fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1)).first.first} | {fold(rbegin(@blocks), (~ + 1)) == rend(@blocks)}
exit !{$0} | !{$1 < at(@mem_index, $0).second} | !{$1 < fold(rbegin(@blocks), (~ + 1)).min_version} | {$0 == fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1)).first.first} | {ret = 0}
exit !{$0} | !{$1 < at(@mem_index, $0).second} | !{begin(@mem_block) == fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1))} | !{end(@mem_block) == fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1))} | !{has(@mem_index, $0)}
exit !{$0} | !{$1 < at(@mem_index, $0).second} | !{begin(@mem_block) == fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1))} | !{has(@mem_index, $0)} | {$0 == fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1)).first.first}
exit !{$0} | !{$1 < at(@mem_index, $0).second} | !{end(@mem_block) == fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1))} | !{fold(rbegin(@blocks), (~ + 1)) == rend(@blocks)} | {ret = 0}
exit !{$0} | !{$1 < at(@mem_index, $0).second} | !{end(@mem_block) == fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1))} | !{has(@mem_index, $0)} | {$1 < fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1)).first.second}
exit !{$0} | !{$1 < at(@mem_index, $0).second} | !{end(@mem_block) == fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1))} | {fold(rbegin(@blocks), (~ + 1)) == rend(@blocks)} | {has(fold(rbegin(@blocks), (~ + 1)), $0)}
exit !{$0} | !{$1 < at(@mem_index, $0).second} | !{end(@mem_block) == fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1))} | {has(fold(rbegin(@blocks), (~ + 1)), $0)} | {ret = 0}
exit !{$0} | !{$1 < at(@mem_index, $0).second} | !{fold(rbegin(@blocks), (~ + 1)) == rend(@blocks)} | {$0 == fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1)).first.first} | {ret = 0}
exit !{$0} | !{$1 < at(@mem_index, $0).second} | !{has(@mem_index, $0)} | {$0 == fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1)).first.first} | {$1 < fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1)).first.second}
exit !{$0} | !{$1 < at(@mem_index, $0).second} | {$0 == fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1)).first.first} | {fold(rbegin(@blocks), (~ + 1)) == rend(@blocks)} | {has(fold(rbegin(@blocks), (~ + 1)), $0)}
exit !{$0} | !{$1 < at(@mem_index, $0).second} | {$0 == fold(lower_bound(@mem_block, pair($0, $1)), (~ + -1)).first.first} | {has(fold(rbegin(@blocks), (~ + 1)), $0)} | {ret = 0}
exit !{$0} | !{fold(rbegin(@blocks), (~ + 1)) == rend(@blocks)} | !{has(fold(rbegin(@blocks), (~ + 1)), $0)} | {$1 < fold(rbegin(@blocks), (~ + 1)).min_version} | {has(@mem_index, $0)}
never break(loop) ;; {$0}
fn mmx::Table::find sig=block_t>
each lower_bound($0, 4294967295, $1, false)
each read_value(%TypeInput, 0) ;; {out(lower_bound‥, $0, 4294967295, $1)} ;; !{$0.index_offset < ($1.size + at($0.index, lower_bound($0, 4294967295, $1, false)) + 8)}
each read_entry(%TypeInput, fold(out(lower_bound‥, $0, $1, false), out(read_entry‥, %TypeInput, 0, ~?)), 0, fold(out(read_value‥, %TypeInput), out(read_entry‥, %TypeInput, ~?, 0))) ;; {out(lower_bound‥, $0, 4294967295, $1)} ;; !{$0.index_offset < ($1.size + at($0.index, lower_bound($0, 4294967295, $1, false)) + 8)} ;; {$2 < fold(out(lower_bound‥, $0, $1, false), out(read_entry‥, %TypeInput, 0, ~?))}
raise {out(lower_bound#v, $0, 4294967295, $1)} ;; {$0.index_offset < ($1.size + at($0.index, lower_bound($0, 4294967295, $1, false)) + 8)}
value fold(out(read_value#v, %TypeInput), out(read_entry#v, %TypeInput, ~?, 0))
value fold(out(lower_bound#v, $0, $1, false), out(read_entry#v, %TypeInput, 0, ~?))
exit {did lower_bound($0, 4294967295, $1, false)}
exit !{$0.index_offset < ($1.size + at($0.index, lower_bound($0, 4294967295, $1, false)) + 8)} | !{out(lower_bound‥, $0, 4294967295, $1)}
exit !{out(lower_bound‥, $0, 4294967295, $1)} | {did read_value(%TypeInput, 0)}
exit {out(lower_bound‥, $0, 4294967295, $1)} | {ret = 0}
exit !{$2 < fold(out(lower_bound‥, $0, $1, false), out(read_entry‥, %TypeInput, 0, ~?))} | {$1 == out(read_entry‥, %TypeInput, fold(out(lower_bound‥, $0, $1, false), out(read_entry‥, %TypeInput, 0, ~?)), fold(out(read_value‥, %TypeInput), out(read_entry‥, %TypeInput, ~?, 0)))} | {ret = 0}
exit !{out(lower_bound‥, $0, 4294967295, $1)} | {$1 == out(read_entry‥, %TypeInput, fold(out(lower_bound‥, $0, $1, false), out(read_entry‥, %TypeInput, 0, ~?)), fold(out(read_value‥, %TypeInput), out(read_entry‥, %TypeInput, ~?, 0)))} | {$2 < fold(out(lower_bound‥, $0, $1, false), out(read_entry‥, %TypeInput, 0, ~?))}
exit !{out(lower_bound‥, $0, 4294967295, $1)} | {$2 < fold(out(lower_bound‥, $0, $1, false), out(read_entry‥, %TypeInput, 0, ~?))} | {did read_entry(%TypeInput, fold(out(lower_bound‥, $0, $1, false), out(read_entry‥, %TypeInput, 0, ~?)), 0, fold(out(read_value‥, %TypeInput), out(read_entry‥, %TypeInput, ~?, 0)))}
exit !{out(lower_bound‥, $0, 4294967295, $1)} | {$2 < fold(out(lower_bound‥, $0, $1, false), out(read_entry‥, %TypeInput, 0, ~?))} | {ret = fold(out(read_value‥, %TypeInput), out(read_entry‥, %TypeInput, ~?, 0))}
at lower_bound($0, 4294967295, $1, false)
at read_value(%TypeInput, 0) ;; {out(lower_bound‥, $0, 4294967295, $1)} ;; !{$0.index_offset < ($1.size + at($0.index, lower_bound($0, 4294967295, $1, false)) + 8)}
at read_entry(%TypeInput, fold(out(lower_bound‥, $0, $1, false), out(read_entry‥, %TypeInput, 0, ~?)), 0, fold(out(read_value‥, %TypeInput), out(read_entry‥, %TypeInput, ~?, 0))) ;; {out(lower_bound‥, $0, 4294967295, $1)} ;; !{$0.index_offset < ($1.size + at($0.index, lower_bound($0, 4294967295, $1, false)) + 8)} ;; {$2 < fold(out(lower_bound‥, $0, $1, false), out(read_entry‥, %TypeInput, 0, ~?))}
never break(loop) ;; {out(lower_bound‥, $0, 4294967295, $1)} ;; !{$0.index_offset < ($1.size + at($0.index, lower_bound($0, 4294967295, $1, false)) + 8)} ;; {$2 < fold(out(lower_bound‥, $0, $1, false), out(read_entry‥, %TypeInput, 0, ~?))}
fn mmx::Table::lower_bound
never break(loop)
at read_key_at($0.file, at($0.index, ((fold(0, ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~ + ~?) / 2)), undef))}, (((~ + ~?) / 2) + 1), ~)) + fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))) / 2)), undef, 0) ;; {$2} ;; {fold(0, ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~ + ~?) / 2)), undef))}, (((~ + ~?) / 2) + 1), ~)) < fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))}
at @options.comparator($2, out(read_key_at‥, $0.file, at($0.index, ((fold(0, ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~ + ~?) / 2)), undef))}, (((~ + ~?) / 2) + 1), ~)) + fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))) / 2)), undef)) ;; {$2} ;; {fold(0, ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~ + ~?) / 2)), undef))}, (((~ + ~?) / 2) + 1), ~)) < fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))}
at read_key_at($0.file, at($0.index, (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + -1)), $1, 0) ;; {$2} ;; {fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))}
at read_key_at($0.file, at($0.index, fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))), ite({fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))}, out(read_key_at‥, $0.file, at($0.index, (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + -1)), 0), $1), $2) ;; {$2} ;; {fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) < size($0.index)}
each read_key_at($0.file, at($0.index, ((fold(0, ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~ + ~?) / 2)), undef))}, (((~ + ~?) / 2) + 1), ~)) + fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))) / 2)), undef, 0) ;; {$2} ;; {fold(0, ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~ + ~?) / 2)), undef))}, (((~ + ~?) / 2) + 1), ~)) < fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))}
each @options.comparator($2, out(read_key_at‥, $0.file, at($0.index, ((fold(0, ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~ + ~?) / 2)), undef))}, (((~ + ~?) / 2) + 1), ~)) + fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))) / 2)), undef)) ;; {$2} ;; {fold(0, ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~ + ~?) / 2)), undef))}, (((~ + ~?) / 2) + 1), ~)) < fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))}
each read_key_at($0.file, at($0.index, (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + -1)), $1, 0) ;; {$2} ;; {fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))}
each read_key_at($0.file, at($0.index, fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))), ite({fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))}, out(read_key_at‥, $0.file, at($0.index, (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + -1)), 0), $1), $2) ;; {$2} ;; {fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) < size($0.index)}
raise !{$2}
value fold(0, ite({-1 < apply(@options.comparator, $2, out(read_key_at#v, $0.file, at($0.index, ((~ + ~?) / 2)), undef))}, (((~ + ~?) / 2) + 1), ~))
value fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at#v, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))
exit !{fold(0, ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~ + ~?) / 2)), undef))}, (((~ + ~?) / 2) + 1), ~)) < fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))}
exit {$2}
exit {did @options.comparator($2, out(read_key_at‥, $0.file, at($0.index, ((fold(0, ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~ + ~?) / 2)), undef))}, (((~ + ~?) / 2) + 1), ~)) + fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))) / 2)), undef))}
exit {did read_key_at($0.file, at($0.index, ((fold(0, ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~ + ~?) / 2)), undef))}, (((~ + ~?) / 2) + 1), ~)) + fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))) / 2)), undef, 0)}
exit {out $3 = ({$2 == out(read_key_at‥, $0.file, at($0.index, (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + -1)), $1)} && {$2} && {fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))})}
exit {ret = (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + ite((!{$2 == out(read_key_at‥, $0.file, at($0.index, (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + -1)), $1)} || !{$2} || !{fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))}), 0, -1))}
exit {$2 == out(read_key_at‥, $0.file, at($0.index, (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + -1)), $1)} | {ret = fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))}
exit {fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))} | {ret = fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))}
exit !{$2 == out(read_key_at‥, $0.file, at($0.index, (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + -1)), $1)} | !{fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))} | {did read_key_at($0.file, at($0.index, (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + -1)), $1, 0)}
exit !{$2 == out(read_key_at‥, $0.file, at($0.index, (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + -1)), $1)} | !{fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))} | {out $1 = out(read_key_at‥, $0.file, at($0.index, (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + -1)), 0)}
exit !{$2 == out(read_key_at‥, $0.file, at($0.index, (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + -1)), $1)} | !{fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))} | {out $2 = $2}
exit !{$2 == out(read_key_at‥, $0.file, at($0.index, (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + -1)), $1)} | !{fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))} | {ret = (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + -1)}
exit !{fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) < size($0.index)} | {fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))} | {out $1 = out(read_key_at‥, $0.file, at($0.index, fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))), $2)}
exit !{fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))} | {$2 == out(read_key_at‥, $0.file, at($0.index, (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + -1)), $1)} | {did read_key_at($0.file, at($0.index, (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + -1)), $1, 0)}
exit {$2 == out(read_key_at‥, $0.file, at($0.index, (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + -1)), $1)} | {fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) < size($0.index)} | {out $1 = 4294967295}
exit {$2 == out(read_key_at‥, $0.file, at($0.index, (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + -1)), $1)} | {fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) < size($0.index)} | {out $2 = 0}
exit {fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) < size($0.index)} | {fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))} | {out $1 = 4294967295}
exit {fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) < size($0.index)} | {fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))} | {out $2 = 0}
at read_key_at($0.file, at($0.index, (fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2))) + -1)), $1, 0) ;; {fold(size($0.index), ite({-1 < apply(@options.comparator, $2, out(read_key_at‥, $0.file, at($0.index, ((~? + ~) / 2)), undef))}, ~, ((~ + ~?) / 2)))}
fn mmx::Table::Iterator::is_valid
never throw …
true !{empty(@block_map)}
true {@direction}
false !{@direction} | {empty(@block_map)}
fn mmx::Table::Iterator::current
raise !{is_valid()}
exit {is_valid()}
exit {ret = begin(@block_map)}
fn mmx::Table::Iterator::version
never throw …
exit {ret = current().first.second}
fn mmx::Table::Iterator::key
never throw …
exit {ret = current().first.first}
fn mmx::Table::Iterator::value
never throw …
exit {ret = current().second.value}
fn mmx::Table::Iterator::prev
never break(loop)
at %Table::Iterator::pointer_t.block = fold(begin(@block_map), erase(@block_map, ~)).second.block ;; {is_valid()} ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.pos}
at %Table::Iterator::pointer_t.pos = (fold(begin(@block_map), erase(@block_map, ~)).second.pos + -1) ;; {is_valid()} ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.pos}
at read_entry_at(fold(begin(@block_map), erase(@block_map, ~)).second.block.file, at(fold(begin(@block_map), erase(@block_map, ~)).second.block.index, (fold(begin(@block_map), erase(@block_map, ~)).second.pos + -1)), undef, 0, %Table::Iterator::pointer_t.value) ;; {is_valid()} ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.pos}
at at(@block_map, pair(out(read_entry_at‥, fold(begin(@block_map), erase(@block_map, ~)).second.block.file, at(fold(begin(@block_map), erase(@block_map, ~)).second.block.index, (fold(begin(@block_map), erase(@block_map, ~)).second.pos + -1)), undef, %Table::Iterator::pointer_t.value), out(read_entry_at‥, fold(begin(@block_map), erase(@block_map, ~)).second.block.file, at(fold(begin(@block_map), erase(@block_map, ~)).second.block.index, (fold(begin(@block_map), erase(@block_map, ~)).second.pos + -1)), 0, %Table::Iterator::pointer_t.value))) = %Table::Iterator::pointer_t ;; {is_valid()} ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.pos}
at %Table::Iterator::pointer_t.iter = (fold(begin(@block_map), erase(@block_map, ~)).second.iter + -1) ;; {is_valid()} ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; !{fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; !{begin(@table.mem_index) == fold(begin(@block_map), erase(@block_map, ~)).second.iter}
at %Table::Iterator::pointer_t.value = (fold(begin(@block_map), erase(@block_map, ~)).second.iter + -1).second.first ;; {is_valid()} ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; !{fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; !{begin(@table.mem_index) == fold(begin(@block_map), erase(@block_map, ~)).second.iter}
at at(@block_map, pair((fold(begin(@block_map), erase(@block_map, ~)).second.iter + -1).first, (fold(begin(@block_map), erase(@block_map, ~)).second.iter + -1).second.second)) = %Table::Iterator::pointer_t ;; {is_valid()} ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; !{fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; !{begin(@table.mem_index) == fold(begin(@block_map), erase(@block_map, ~)).second.iter}
at erase(@block_map, fold(begin(@block_map), erase(@block_map, ~))) ;; {is_valid()} ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first}
each %Table::Iterator::pointer_t.block = fold(begin(@block_map), erase(@block_map, ~)).second.block ;; {is_valid()} ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.pos}
each %Table::Iterator::pointer_t.pos = (fold(begin(@block_map), erase(@block_map, ~)).second.pos + -1) ;; {is_valid()} ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.pos}
each read_entry_at(fold(begin(@block_map), erase(@block_map, ~)).second.block.file, at(fold(begin(@block_map), erase(@block_map, ~)).second.block.index, (fold(begin(@block_map), erase(@block_map, ~)).second.pos + -1)), undef, 0, %Table::Iterator::pointer_t.value) ;; {is_valid()} ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.pos}
each at(@block_map, pair(out(read_entry_at‥, fold(begin(@block_map), erase(@block_map, ~)).second.block.file, at(fold(begin(@block_map), erase(@block_map, ~)).second.block.index, (fold(begin(@block_map), erase(@block_map, ~)).second.pos + -1)), undef, %Table::Iterator::pointer_t.value), out(read_entry_at‥, fold(begin(@block_map), erase(@block_map, ~)).second.block.file, at(fold(begin(@block_map), erase(@block_map, ~)).second.block.index, (fold(begin(@block_map), erase(@block_map, ~)).second.pos + -1)), 0, %Table::Iterator::pointer_t.value))) = %Table::Iterator::pointer_t ;; {is_valid()} ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.pos}
each %Table::Iterator::pointer_t.iter = (fold(begin(@block_map), erase(@block_map, ~)).second.iter + -1) ;; {is_valid()} ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; !{fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; !{begin(@table.mem_index) == fold(begin(@block_map), erase(@block_map, ~)).second.iter}
each %Table::Iterator::pointer_t.value = (fold(begin(@block_map), erase(@block_map, ~)).second.iter + -1).second.first ;; {is_valid()} ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; !{fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; !{begin(@table.mem_index) == fold(begin(@block_map), erase(@block_map, ~)).second.iter}
each at(@block_map, pair((fold(begin(@block_map), erase(@block_map, ~)).second.iter + -1).first, (fold(begin(@block_map), erase(@block_map, ~)).second.iter + -1).second.second)) = %Table::Iterator::pointer_t ;; {is_valid()} ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; !{fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; !{begin(@table.mem_index) == fold(begin(@block_map), erase(@block_map, ~)).second.iter}
each erase(@block_map, fold(begin(@block_map), erase(@block_map, ~))) ;; {is_valid()} ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first}
each seek_prev(key()) ;; {is_valid()} ;; {-1 < @direction}
raise !{is_valid()}
value fold(begin(@block_map), erase(@block_map, ~))
exit {is_valid()}
exit !{-1 < @direction} | {did seek_prev(key())}
exit {-1 < @direction} | {did erase(@block_map, fold(begin(@block_map), erase(@block_map, ~)))}
exit !{begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} | {-1 < @direction} | {end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))}
exit !{fold(begin(@block_map), erase(@block_map, ~)).second.block} | !{fold(begin(@block_map), erase(@block_map, ~)).second.pos} | {-1 < @direction} | {did %Table::Iterator::pointer_t.block = fold(begin(@block_map), erase(@block_map, ~)).second.block}
exit !{fold(begin(@block_map), erase(@block_map, ~)).second.block} | !{fold(begin(@block_map), erase(@block_map, ~)).second.pos} | {-1 < @direction} | {did %Table::Iterator::pointer_t.pos = (fold(begin(@block_map), erase(@block_map, ~)).second.pos + -1)}
exit !{fold(begin(@block_map), erase(@block_map, ~)).second.block} | !{fold(begin(@block_map), erase(@block_map, ~)).second.pos} | {-1 < @direction} | {did read_entry_at(fold(begin(@block_map), erase(@block_map, ~)).second.block.file, at(fold(begin(@block_map), erase(@block_map, ~)).second.block.index, (fold(begin(@block_map), erase(@block_map, ~)).second.pos + -1)), undef, 0, %Table::Iterator::pointer_t.value)}
exit {-1 < @direction} | {begin(@table.mem_index) == fold(begin(@block_map), erase(@block_map, ~)).second.iter} | {did %Table::Iterator::pointer_t.iter = (fold(begin(@block_map), erase(@block_map, ~)).second.iter + -1)} | {fold(begin(@block_map), erase(@block_map, ~)).second.block}
exit {-1 < @direction} | {begin(@table.mem_index) == fold(begin(@block_map), erase(@block_map, ~)).second.iter} | {did %Table::Iterator::pointer_t.value = (fold(begin(@block_map), erase(@block_map, ~)).second.iter + -1).second.first} | {fold(begin(@block_map), erase(@block_map, ~)).second.block}
exit {-1 < @direction} | {begin(@table.mem_index) == fold(begin(@block_map), erase(@block_map, ~)).second.iter} | {did at(@block_map, pair((fold(begin(@block_map), erase(@block_map, ~)).second.iter + -1).first, (fold(begin(@block_map), erase(@block_map, ~)).second.iter + -1).second.second)) = %Table::Iterator::pointer_t} | {fold(begin(@block_map), erase(@block_map, ~)).second.block}
at %Table::Iterator::pointer_t.block = fold(begin(@block_map), erase(@block_map, ~)).second.block ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.pos}
at %Table::Iterator::pointer_t.pos = (fold(begin(@block_map), erase(@block_map, ~)).second.pos + -1) ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.pos}
at read_entry_at(fold(begin(@block_map), erase(@block_map, ~)).second.block.file, at(fold(begin(@block_map), erase(@block_map, ~)).second.block.index, (fold(begin(@block_map), erase(@block_map, ~)).second.pos + -1)), undef, 0, %Table::Iterator::pointer_t.value) ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.pos}
at %Table::Iterator::pointer_t.iter = (fold(begin(@block_map), erase(@block_map, ~)).second.iter + -1) ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; !{fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; !{begin(@table.mem_index) == fold(begin(@block_map), erase(@block_map, ~)).second.iter}
at %Table::Iterator::pointer_t.value = (fold(begin(@block_map), erase(@block_map, ~)).second.iter + -1).second.first ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; !{fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; !{begin(@table.mem_index) == fold(begin(@block_map), erase(@block_map, ~)).second.iter}
at at(@block_map, pair((fold(begin(@block_map), erase(@block_map, ~)).second.iter + -1).first, (fold(begin(@block_map), erase(@block_map, ~)).second.iter + -1).second.second)) = %Table::Iterator::pointer_t ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; !{fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; !{begin(@table.mem_index) == fold(begin(@block_map), erase(@block_map, ~)).second.iter}
at erase(@block_map, fold(begin(@block_map), erase(@block_map, ~))) ;; !{-1 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first}
at seek_prev(key()) ;; {-1 < @direction}
fn mmx::Table::Iterator::next
never break(loop)
at %Table::Iterator::pointer_t.block = fold(begin(@block_map), erase(@block_map, ~)).second.block ;; {is_valid()} ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {(fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1) < size(fold(begin(@block_map), erase(@block_map, ~)).second.block.index)}
at %Table::Iterator::pointer_t.pos = (fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1) ;; {is_valid()} ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {(fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1) < size(fold(begin(@block_map), erase(@block_map, ~)).second.block.index)}
at read_entry_at(fold(begin(@block_map), erase(@block_map, ~)).second.block.file, at(fold(begin(@block_map), erase(@block_map, ~)).second.block.index, (fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1)), undef, 0, %Table::Iterator::pointer_t.value) ;; {is_valid()} ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {(fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1) < size(fold(begin(@block_map), erase(@block_map, ~)).second.block.index)}
at at(@block_map, pair(out(read_entry_at‥, fold(begin(@block_map), erase(@block_map, ~)).second.block.file, at(fold(begin(@block_map), erase(@block_map, ~)).second.block.index, (fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1)), undef, %Table::Iterator::pointer_t.value), out(read_entry_at‥, fold(begin(@block_map), erase(@block_map, ~)).second.block.file, at(fold(begin(@block_map), erase(@block_map, ~)).second.block.index, (fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1)), 0, %Table::Iterator::pointer_t.value))) = %Table::Iterator::pointer_t ;; {is_valid()} ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {(fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1) < size(fold(begin(@block_map), erase(@block_map, ~)).second.block.index)}
at %Table::Iterator::pointer_t.iter = (fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1) ;; {is_valid()} ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; !{fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; !{(fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1) == end(@table.mem_index)}
at %Table::Iterator::pointer_t.value = (fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1).second.first ;; {is_valid()} ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; !{fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; !{(fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1) == end(@table.mem_index)}
at at(@block_map, pair((fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1).first, (fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1).second.second)) = %Table::Iterator::pointer_t ;; {is_valid()} ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; !{fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; !{(fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1) == end(@table.mem_index)}
at erase(@block_map, fold(begin(@block_map), erase(@block_map, ~))) ;; {is_valid()} ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first}
each %Table::Iterator::pointer_t.block = fold(begin(@block_map), erase(@block_map, ~)).second.block ;; {is_valid()} ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {(fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1) < size(fold(begin(@block_map), erase(@block_map, ~)).second.block.index)}
each %Table::Iterator::pointer_t.pos = (fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1) ;; {is_valid()} ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {(fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1) < size(fold(begin(@block_map), erase(@block_map, ~)).second.block.index)}
each read_entry_at(fold(begin(@block_map), erase(@block_map, ~)).second.block.file, at(fold(begin(@block_map), erase(@block_map, ~)).second.block.index, (fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1)), undef, 0, %Table::Iterator::pointer_t.value) ;; {is_valid()} ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {(fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1) < size(fold(begin(@block_map), erase(@block_map, ~)).second.block.index)}
each at(@block_map, pair(out(read_entry_at‥, fold(begin(@block_map), erase(@block_map, ~)).second.block.file, at(fold(begin(@block_map), erase(@block_map, ~)).second.block.index, (fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1)), undef, %Table::Iterator::pointer_t.value), out(read_entry_at‥, fold(begin(@block_map), erase(@block_map, ~)).second.block.file, at(fold(begin(@block_map), erase(@block_map, ~)).second.block.index, (fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1)), 0, %Table::Iterator::pointer_t.value))) = %Table::Iterator::pointer_t ;; {is_valid()} ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {(fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1) < size(fold(begin(@block_map), erase(@block_map, ~)).second.block.index)}
each %Table::Iterator::pointer_t.iter = (fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1) ;; {is_valid()} ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; !{fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; !{(fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1) == end(@table.mem_index)}
each %Table::Iterator::pointer_t.value = (fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1).second.first ;; {is_valid()} ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; !{fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; !{(fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1) == end(@table.mem_index)}
each at(@block_map, pair((fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1).first, (fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1).second.second)) = %Table::Iterator::pointer_t ;; {is_valid()} ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; !{fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; !{(fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1) == end(@table.mem_index)}
each erase(@block_map, fold(begin(@block_map), erase(@block_map, ~))) ;; {is_valid()} ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first}
each seek_next(key()) ;; {is_valid()} ;; !{0 < @direction}
raise !{is_valid()}
value fold(begin(@block_map), erase(@block_map, ~))
exit {is_valid()}
exit !{0 < @direction} | {did erase(@block_map, fold(begin(@block_map), erase(@block_map, ~)))}
exit {0 < @direction} | {did seek_next(key())}
exit !{0 < @direction} | !{begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} | {end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))}
exit !{(fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1) < size(fold(begin(@block_map), erase(@block_map, ~)).second.block.index)} | !{0 < @direction} | !{fold(begin(@block_map), erase(@block_map, ~)).second.block} | {did %Table::Iterator::pointer_t.block = fold(begin(@block_map), erase(@block_map, ~)).second.block}
exit !{(fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1) < size(fold(begin(@block_map), erase(@block_map, ~)).second.block.index)} | !{0 < @direction} | !{fold(begin(@block_map), erase(@block_map, ~)).second.block} | {did %Table::Iterator::pointer_t.pos = (fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1)}
exit !{(fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1) < size(fold(begin(@block_map), erase(@block_map, ~)).second.block.index)} | !{0 < @direction} | !{fold(begin(@block_map), erase(@block_map, ~)).second.block} | {did read_entry_at(fold(begin(@block_map), erase(@block_map, ~)).second.block.file, at(fold(begin(@block_map), erase(@block_map, ~)).second.block.index, (fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1)), undef, 0, %Table::Iterator::pointer_t.value)}
exit !{0 < @direction} | {(fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1) == end(@table.mem_index)} | {did %Table::Iterator::pointer_t.iter = (fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1)} | {fold(begin(@block_map), erase(@block_map, ~)).second.block}
exit !{0 < @direction} | {(fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1) == end(@table.mem_index)} | {did %Table::Iterator::pointer_t.value = (fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1).second.first} | {fold(begin(@block_map), erase(@block_map, ~)).second.block}
exit !{0 < @direction} | {(fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1) == end(@table.mem_index)} | {did at(@block_map, pair((fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1).first, (fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1).second.second)) = %Table::Iterator::pointer_t} | {fold(begin(@block_map), erase(@block_map, ~)).second.block}
at %Table::Iterator::pointer_t.block = fold(begin(@block_map), erase(@block_map, ~)).second.block ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {(fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1) < size(fold(begin(@block_map), erase(@block_map, ~)).second.block.index)}
at %Table::Iterator::pointer_t.pos = (fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1) ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; {fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; {(fold(begin(@block_map), erase(@block_map, ~)).second.pos + 1) < size(fold(begin(@block_map), erase(@block_map, ~)).second.block.index)}
at %Table::Iterator::pointer_t.iter = (fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1) ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; !{fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; !{(fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1) == end(@table.mem_index)}
at %Table::Iterator::pointer_t.value = (fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1).second.first ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; !{fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; !{(fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1) == end(@table.mem_index)}
at at(@block_map, pair((fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1).first, (fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1).second.second)) = %Table::Iterator::pointer_t ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first} ;; !{fold(begin(@block_map), erase(@block_map, ~)).second.block} ;; !{(fold(begin(@block_map), erase(@block_map, ~)).second.iter + 1) == end(@table.mem_index)}
at erase(@block_map, fold(begin(@block_map), erase(@block_map, ~))) ;; {0 < @direction} ;; !{end(@block_map) == fold(begin(@block_map), erase(@block_map, ~))} ;; {begin(@block_map).first.first == fold(begin(@block_map), erase(@block_map, ~)).first.first}
at seek_next(key()) ;; !{0 < @direction}
fn mmx::Table::Iterator::seek_begin
each seek(0, 0)
never throw …
exit {did seek(0, 0)}
at seek(0, 0)
fn mmx::Table::Iterator::seek_last
each seek(0, -1)
never throw …
exit {did seek(0, -1)}
at seek(0, -1)
fn mmx::Table::Iterator::seek_next
each seek($0, 1)
never throw …
exit {did seek($0, 1)}
at seek($0, 1)
fn mmx::Table::Iterator::seek_prev
each seek($0, -1)
never throw …
exit {did seek($0, -1)}
at seek($0, -1)
fn mmx::Table::Iterator::seek_for_prev
each seek($0)
each prev() ;; {is_valid()} ;; !{$0 == key()}
never throw …
exit {did seek($0)}
exit !{is_valid()} | {$0 == key()} | {did prev()}
at seek($0)
at prev() ;; {is_valid()} ;; !{$0 == key()}
fn mmx::Table::Iterator::seek sig=db_val_t>)
each seek($0, 0)
never throw …
exit {did seek($0, 0)}
at seek($0, 0)
fn mmx::Table::Iterator::seek sig=(std::shared_ptr<mmx::db_val_t>,~const~int)
each seek(@table.blocks, $0, $1)
each %Table::Iterator::pointer_t.iter = ite({-1 < $1}, (ite((!{0 < $1} || (!{$0 == lower_bound(@table.mem_index, $0).first} && {$0}) || (!{$0} && (!{-1 < $1} || {empty(@table.mem_index)})) || ({$0} && {end(@table.mem_index) == lower_bound(@table.mem_index, $0)})), 0, 1) + ite({$0}, lower_bound(@table.mem_index, $0), ite({-1 < $1}, begin(@table.mem_index), end(@table.mem_index)))), ite(((!{$0} && ({-1 < $1} || {empty(@table.mem_index)})) || ({$0} && {begin(@table.mem_index) == lower_bound(@table.mem_index, $0)})), end(@table.mem_index), (ite({$0}, lower_bound(@table.mem_index, $0), ite({-1 < $1}, begin(@table.mem_index), end(@table.mem_index))) + -1))) ;; !{empty(@table.mem_index)} ;; !{(ite((!{0 < $1} || (!{$0 == lower_bound(@table.mem_index, $0).first} && {$0}) || (!{$0} && (!{-1 < $1} || {empty(@table.mem_index)})) || ({$0} && {end(@table.mem_index) == lower_bound(@table.mem_index, $0)})), 0, 1) + ite({$0}, lower_bound(@table.mem_index, $0), ite({-1 < $1}, begin(@table.mem_index), end(@table.mem_index)))) == end(@table.mem_index)} | !{-1 < $1} ;; !{$0} | !{begin(@table.mem_index) == lower_bound(@table.mem_index, $0)} | {-1 < $1} ;; !{empty(@table.mem_index)} | {$0} | {-1 < $1} ;; !{(ite({$0}, lower_bound(@table.mem_index, $0), ite({-1 < $1}, begin(@table.mem_index), end(@table.mem_index))) + -1) == end(@table.mem_index)} | {$0} | {-1 < $1} | {empty(@table.mem_index)} ;; !{$0} | !{(ite({$0}, lower_bound(@table.mem_index, $0), ite({-1 < $1}, begin(@table.mem_index), end(@table.mem_index))) + -1) == end(@table.mem_index)} | {-1 < $1} | {begin(@table.mem_index) == lower_bound(@table.mem_index, $0)} ;; !{(ite({$0}, lower_bound(@table.mem_index, $0), ite({-1 < $1}, begin(@table.mem_index), end(@table.mem_index))) + -1) == end(@table.mem_index)} | {-1 < $1} | {begin(@table.mem_index) == lower_bound(@table.mem_index, $0)} | {empty(@table.mem_index)}
each %Table::Iterator::pointer_t.value = ite({-1 < $1}, (ite((!{0 < $1} || (!{$0 == lower_bound(@table.mem_index, $0).first} && {$0}) || (!{$0} && (!{-1 < $1} || {empty(@table.mem_index)})) || ({$0} && {end(@table.mem_index) == lower_bound(@table.mem_index, $0)})), 0, 1) + ite({$0}, lower_bound(@table.mem_index, $0), ite({-1 < $1}, begin(@table.mem_index), end(@table.mem_index)))).second.first, ite(((!{$0} && ({-1 < $1} || {empty(@table.mem_index)})) || ({$0} && {begin(@table.mem_index) == lower_bound(@table.mem_index, $0)})), end(@table.mem_index).second.first, (ite({$0}, lower_bound(@table.mem_index, $0), ite({-1 < $1}, begin(@table.mem_index), end(@table.mem_index))) + -1).second.first)) ;; !{empty(@table.mem_index)} ;; !{(ite((!{0 < $1} || (!{$0 == lower_bound(@table.mem_index, $0).first} && {$0}) || (!{$0} && (!{-1 < $1} || {empty(@table.mem_index)})) || ({$0} && {end(@table.mem_index) == lower_bound(@table.mem_index, $0)})), 0, 1) + ite({$0}, lower_bound(@table.mem_index, $0), ite({-1 < $1}, begin(@table.mem_index), end(@table.mem_index)))) == end(@table.mem_index)} | !{-1 < $1} ;; !{$0} | !{begin(@table.mem_index) == lower_bound(@table.mem_index, $0)} | {-1 < $1} ;; !{empty(@table.mem_index)} | {$0} | {-1 < $1} ;; !{(ite({$0}, lower_bound(@table.mem_index, $0), ite({-1 < $1}, begin(@table.mem_index), end(@table.mem_index))) + -1) == end(@table.mem_index)} | {$0} | {-1 < $1} | {empty(@table.mem_index)} ;; !{$0} | !{(ite({$0}, lower_bound(@table.mem_index, $0), ite({-1 < $1}, begin(@table.mem_index), end(@table.mem_index))) + -1) == end(@table.mem_index)} | {-1 < $1} | {begin(@table.mem_index) == lower_bound(@table.mem_index, $0)} ;; !{(ite({$0}, lower_bound(@table.mem_index, $0), ite({-1 < $1}, begin(@table.mem_index), end(@table.mem_index))) + -1) == end(@table.mem_index)} | {-1 < $1} | {begin(@table.mem_index) == lower_bound(@table.mem_index, $0)} | {empty(@table.mem_index)}
never throw …
exit {did seek(@table.blocks, $0, $1)}
at seek(@table.blocks, $0, $1)
fn mmx::Table::Iterator::seek sig=std::list
each clear(@block_map)
each @direction = ite({-1 < $2}, 1, -1)
each lower_bound(@table, elem($0), 4294967295, $1, false) ;; {$1}
each read_key_at(elem($0).file, at(elem($0).index, 0), 4294967295, $1) ;; !{$1} ;; !{$2} ;; !{empty(elem($0).index)}
each read_key_at(elem($0).file, at(elem($0).index, (ite({$1}, lower_bound(@table, elem($0), 4294967295, $1, false), ite((!{$2} || {-1 < $2}), 0, size(elem($0).index))) + -1)), ite({$1}, out(lower_bound‥, elem($0), $1, false), ite({$2}, 4294967295, out(read_key_at‥, elem($0).file, at(elem($0).index, 0), $1))), ite({$1}, out(lower_bound‥, elem($0), 4294967295, false), ite({$2}, $1, out(read_key_at‥, elem($0).file, at(elem($0).index, 0), 4294967295)))) ;; !{-1 < $2} ;; {$1} | {$2} ;; !{-1 < $2} | {$1} ;; !{empty(elem($0).index)} | {$1} ;; !{$1} | {lower_bound(@table, elem($0), 4294967295, $1, false)} ;; {$2} | {lower_bound(@table, elem($0), 4294967295, $1, false)} ;; !{-1 < $2} | {lower_bound(@table, elem($0), 4294967295, $1, false)} ;; !{empty(elem($0).index)} | {lower_bound(@table, elem($0), 4294967295, $1, false)}
each read_key_at(elem($0).file, at(elem($0).index, (ite({$1}, lower_bound(@table, elem($0), 4294967295, $1, false), ite((!{$2} || {-1 < $2}), 0, size(elem($0).index))) + 1)), ite({$1}, out(lower_bound‥, elem($0), $1, false), ite({$2}, 4294967295, out(read_key_at‥, elem($0).file, at(elem($0).index, 0), $1))), ite({$1}, out(lower_bound‥, elem($0), 4294967295, false), ite({$2}, $1, out(read_key_at‥, elem($0).file, at(elem($0).index, 0), 4294967295)))) ;; {-1 < $2} ;; {0 < $2} ;; !{$1} | {out(lower_bound‥, elem($0), 4294967295, $1)} ;; {(ite({$1}, lower_bound(@table, elem($0), 4294967295, $1, false), ite((!{$2} || {-1 < $2}), 0, size(elem($0).index))) + 1) < size(elem($0).index)}
each %Table::Iterator::pointer_t.block = elem($0)
each %Table::Iterator::pointer_t.pos = (ite({$1}, lower_bound(@table, elem($0), 4294967295, $1, false), ite((!{$2} || {-1 < $2}), 0, size(elem($0).index))) + ite({-1 < $2}, ite((!{0 < $2} || (!{out(lower_bound‥, elem($0), 4294967295, $1)} && {$1})), 0, 1), -1))
never break($0)
never throw …
exit {did @direction = ite({-1 < $2}, 1, -1)}
exit {did clear(@block_map)}
exit !{$1} | {did lower_bound(@table, elem($0), 4294967295, $1, false)}
exit !{$1} | !{lower_bound(@table, elem($0), 4294967295, $1, false)} | {-1 < $2} | {did read_key_at(elem($0).file, at(elem($0).index, (ite({$1}, lower_bound(@table, elem($0), 4294967295, $1, false), ite((!{$2} || {-1 < $2}), 0, size(elem($0).index))) + -1)), ite({$1}, out(lower_bound‥, elem($0), $1, false), ite({$2}, 4294967295, out(read_key_at‥, elem($0).file, at(elem($0).index, 0), $1))), ite({$1}, out(lower_bound‥, elem($0), 4294967295, false), ite({$2}, $1, out(read_key_at‥, elem($0).file, at(elem($0).index, 0), 4294967295))))}
exit {$1} | {$2} | {did read_key_at(elem($0).file, at(elem($0).index, 0), 4294967295, $1)} | {empty(elem($0).index)}
exit !{$2} | {$1} | {-1 < $2} | {did read_key_at(elem($0).file, at(elem($0).index, (ite({$1}, lower_bound(@table, elem($0), 4294967295, $1, false), ite((!{$2} || {-1 < $2}), 0, size(elem($0).index))) + -1)), ite({$1}, out(lower_bound‥, elem($0), $1, false), ite({$2}, 4294967295, out(read_key_at‥, elem($0).file, at(elem($0).index, 0), $1))), ite({$1}, out(lower_bound‥, elem($0), 4294967295, false), ite({$2}, $1, out(read_key_at‥, elem($0).file, at(elem($0).index, 0), 4294967295))))} | {empty(elem($0).index)}
at clear(@block_map)
at @direction = ite({-1 < $2}, 1, -1)
at lower_bound(@table, elem($0), 4294967295, $1, false) ;; {$1}
at read_key_at(elem($0).file, at(elem($0).index, 0), 4294967295, $1) ;; !{$1} ;; !{$2} ;; !{empty(elem($0).index)}
at %Table::Iterator::pointer_t.block = elem($0) ;; !{$1} | {-1 < $2} | {lower_bound(@table, elem($0), 4294967295, $1, false)} ;; !{empty(elem($0).index)} | {$1} | {$2} ;; !{empty(elem($0).index)} | {$1} | {-1 < $2} ;; !{empty(elem($0).index)} | {-1 < $2} | {lower_bound(@table, elem($0), 4294967295, $1, false)} ;; {$1} | {$2} | {-1 < $2} ;; {$2} | {-1 < $2} | {lower_bound(@table, elem($0), 4294967295, $1, false)} ;; !{-1 < $2} | !{0 < $2} | {$1} | {(ite({$1}, lower_bound(@table, elem($0), 4294967295, $1, false), ite((!{$2} || {-1 < $2}), 0, size(elem($0).index))) + 1) < size(elem($0).index)}
at %Table::Iterator::pointer_t.pos = (ite({$1}, lower_bound(@table, elem($0), 4294967295, $1, false), ite((!{$2} || {-1 < $2}), 0, size(elem($0).index))) + ite({-1 < $2}, ite((!{0 < $2} || (!{out(lower_bound‥, elem($0), 4294967295, $1)} && {$1})), 0, 1), -1)) ;; !{$1} | {-1 < $2} | {lower_bound(@table, elem($0), 4294967295, $1, false)} ;; !{empty(elem($0).index)} | {$1} | {$2} ;; !{empty(elem($0).index)} | {$1} | {-1 < $2} ;; !{empty(elem($0).index)} | {-1 < $2} | {lower_bound(@table, elem($0), 4294967295, $1, false)} ;; {$1} | {$2} | {-1 < $2} ;; {$2} | {-1 < $2} | {lower_bound(@table, elem($0), 4294967295, $1, false)} ;; !{-1 < $2} | !{0 < $2} | {$1} | {(ite({$1}, lower_bound(@table, elem($0), 4294967295, $1, false), ite((!{$2} || {-1 < $2}), 0, size(elem($0).index))) + 1) < size(elem($0).index)}
