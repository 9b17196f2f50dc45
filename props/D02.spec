tus src/DataBase.cpp
fn mmx::Table::Table file=src/DataBase.cpp
at @last_flush = to(out(read_entry_sum‥, @write_log.in, undef, 0)) ;; {4294967295 == out(read_entry_sum‥, @write_log.in, 0, 0)} ;; {"commit" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))} | {"reset" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))} ;; {fold(true, ite({‥}, maybe(~), ite((!{4294967295 == out(read_entry_sum‥, @write_log.in, 0, 0)} || !{~} || (!{"commit" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))} && !{"reset" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))})), ~, false)))}
each create(%Directory)
each open(@debug_log, ($0 ++ "/debug.log"), std::ios_base::app)
each rename(elem(files(%Directory)), get_path(%File)) ;; {".tmp" == get_extension(elem(files(%Directory)))} ;; !{exists(%File)} ;; {".dat" == get_extension(%File)}
each from_string_value(get_name(elem(files(%Directory)), false), %Variant) ;; {".dat" == get_extension(elem(files(%Directory)))}
each at(%map<unsignedlong,string,allocator<pair<unsignedlong,string>>>, to(%Variant)) = get_name(elem(files(%Directory)), true) ;; {".dat" == get_extension(elem(files(%Directory)))} ;; {is_ulong(%Variant)}
each @next_block_id = max((to(%Variant) + 1), @next_block_id) ;; {".dat" == get_extension(elem(files(%Directory)))} ;; {is_ulong(%Variant)}
each push_back(%vector<shared_ptr<Table::block_t>>, read_block(elem(%map<unsignedlong,string,allocator<pair<unsignedlong,string>>>).second))
each sort(begin(%vector<shared_ptr<Table::block_t>>), end(%vector<shared_ptr<Table::block_t>>), by(!{$cb0.min_version == $cb1.min_version} | {$cb1.level < $cb0.level} && {$cb0.min_version < $cb1.min_version} | {$cb0.min_version == $cb1.min_version} && {$cb0.min_version < $cb1.min_version} | {$cb1.level < $cb0.level}))
each @curr_version = (elem(%vector<shared_ptr<Table::block_t>>).max_version + 1) ;; !{fold(0, ite((!{~.max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} && {~}), ~, elem(%vector<shared_ptr<Table::block_t>>)), %vector<shared_ptr<Table::block_t>>)} | {fold(0, ite((!{~.max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} && {~}), ~, elem(%vector<shared_ptr<Table::block_t>>)), %vector<shared_ptr<Table::block_t>>).max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version}
each push_back(@blocks, elem(%vector<shared_ptr<Table::block_t>>)) ;; !{fold(0, ite((!{~.max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} && {~}), ~, elem(%vector<shared_ptr<Table::block_t>>)), %vector<shared_ptr<Table::block_t>>)} | {fold(0, ite((!{~.max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} && {~}), ~, elem(%vector<shared_ptr<Table::block_t>>)), %vector<shared_ptr<Table::block_t>>).max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version}
each remove(elem(%vector<shared_ptr<Table::block_t>>).file) ;; {fold(0, ite((!{~.max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} && {~}), ~, elem(%vector<shared_ptr<Table::block_t>>)), %vector<shared_ptr<Table::block_t>>)} ;; !{fold(0, ite((!{~.max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} && {~}), ~, elem(%vector<shared_ptr<Table::block_t>>)), %vector<shared_ptr<Table::block_t>>).max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version}
each @last_flush = @curr_version
each open(@write_log, ($0 ++ "/write_log.dat"), "ab")
each open(@write_log, "rb+")
each lock_exclusive(@write_log)
each read_entry_sum(@write_log.in, undef, 0, 0)
each @curr_version = to(out(read_entry_sum‥, @write_log.in, undef, 0)) ;; {4294967295 == out(read_entry_sum‥, @write_log.in, 0, 0)} ;; {"commit" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))} | {"reset" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))}
each @last_flush = to(out(read_entry_sum‥, @write_log.in, undef, 0)) ;; {4294967295 == out(read_entry_sum‥, @write_log.in, 0, 0)} ;; {"commit" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))} | {"reset" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))} ;; {fold(true, ite({‥}, maybe(~), ite((!{4294967295 == out(read_entry_sum‥, @write_log.in, 0, 0)} || !{~} || (!{"commit" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))} && !{"reset" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))})), ~, false)))}
each @curr_version = to(out(read_entry_sum‥, @write_log.in, undef, 0)) ;; {4294967295 == out(read_entry_sum‥, @write_log.in, 0, 0)} ;; !{"commit" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))} ;; !{"reset" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))} ;; {"revert" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))}
each erase(%multimap<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>,allocator<pair<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>>>>, lower_bound(%multimap<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>,allocator<pair<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>>>>, to(out(read_entry_sum‥, @write_log.in, undef, 0))), end(%multimap<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>,allocator<pair<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>>>>)) ;; {4294967295 == out(read_entry_sum‥, @write_log.in, 0, 0)} ;; !{"commit" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))} ;; !{"reset" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))} ;; {"revert" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))}
each insert(%multimap<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>,allocator<pair<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>>>>, out(read_entry_sum‥, @write_log.in, 0, 0), pair(out(read_entry_sum‥, @write_log.in, undef, 0), out(read_entry_sum‥, @write_log.in, undef, 0))) ;; !{4294967295 == out(read_entry_sum‥, @write_log.in, 0, 0)} ;; !{out(read_entry_sum‥, @write_log.in, 0, 0) < @curr_version}
each seek_to(@write_log, maybe(fold(get_input_pos(@write_log.in), ite({‥}, maybe(~), get_input_pos(@write_log.in)))))
each insert_entry(elem(%multimap<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>,allocator<pair<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>>>>).first, elem(%multimap<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>,allocator<pair<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>>>>).second.first, elem(%multimap<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>,allocator<pair<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>>>>).second.second)
each revert(@curr_version)
each check_rewrite()
never break(files(%Directory))
never break(%map<unsignedlong,string,allocator<pair<unsignedlong,string>>>)
never break(%vector<shared_ptr<Table::block_t>>)
never break(%multimap<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>,allocator<pair<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>>>>)
never throw …
at ctor:Directory($0)
at ctor:File((($0 ++ 47) ++ get_name(elem(files(%Directory)), false)))
value fold(get_input_pos(@write_log.in), ite({#v}, maybe(~), get_input_pos(@write_log.in)))
value fold(0, ite((!{~.max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} && {~}), ~, elem(%vector<shared_ptr<Table::block_t>>)), %vector<shared_ptr<Table::block_t>>)
value fold(true, ite({#v}, maybe(~), ite((!{4294967295 == out(read_entry_sum#v, @write_log.in, 0, 0)} || !{~} || (!{"commit" == to_string(out(read_entry_sum#v, @write_log.in, undef, 0))} && !{"reset" == to_string(out(read_entry_sum#v, @write_log.in, undef, 0))})), ~, false)))
exit {did @curr_version := 0}
exit {did @last_flush := 0}
exit {did @last_flush = @curr_version}
exit {did @mem_block := ctor(map<pair<shared_ptr<db_val_t>,unsignedint>,shared_ptr<db_val_t>,Table::mem_compare_t,allocator<pair<pair<shared_ptr<db_val_t>,unsignedint>,shared_ptr<db_val_t>>>>, ctor(Table::mem_compare_t, this))}
exit {did @mem_block_size := 0}
exit {did @mem_index := ctor(map<shared_ptr<db_val_t>,pair<shared_ptr<db_val_t>,unsignedint>,Table::key_compare_t,allocator<pair<shared_ptr<db_val_t>,pair<shared_ptr<db_val_t>,unsignedint>>>>, ctor(Table::key_compare_t, this))}
exit {did @next_block_id := 0}
exit {did @options := $1}
exit {did @root_path := $0}
exit {did @write_lock := 0}
exit {did break(loop)}
exit {did catch const std::underflow_error &}
exit {did check_rewrite()}
exit {did create(%Directory)}
exit {did insert_entry(elem(%multimap<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>,allocator<pair<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>>>>).first, elem(%multimap<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>,allocator<pair<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>>>>).second.first, elem(%multimap<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>,allocator<pair<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>>>>).second.second)}
exit {did lock_exclusive(@write_log)}
exit {did open(@debug_log, ($0 ++ "/debug.log"), std::ios_base::app)}
exit {did open(@write_log, ($0 ++ "/write_log.dat"), "ab")}
exit {did open(@write_log, "rb+")}
exit {did push_back(%vector<shared_ptr<Table::block_t>>, read_block(elem(%map<unsignedlong,string,allocator<pair<unsignedlong,string>>>).second))}
exit {did revert(@curr_version)}
exit {did sort(begin(%vector<shared_ptr<Table::block_t>>), end(%vector<shared_ptr<Table::block_t>>), by(!{$cb0.min_version == $cb1.min_version} | {$cb1.level < $cb0.level} && {$cb0.min_version < $cb1.min_version} | {$cb0.min_version == $cb1.min_version} && {$cb0.min_version < $cb1.min_version} | {$cb1.level < $cb0.level}))}
exit !{".dat" == get_extension(elem(files(%Directory)))} | {did from_string_value(get_name(elem(files(%Directory)), false), %Variant)}
exit !{fold(0, ite((!{~.max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} && {~}), ~, elem(%vector<shared_ptr<Table::block_t>>)), %vector<shared_ptr<Table::block_t>>).max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} | {did @curr_version = (elem(%vector<shared_ptr<Table::block_t>>).max_version + 1)}
exit !{fold(0, ite((!{~.max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} && {~}), ~, elem(%vector<shared_ptr<Table::block_t>>)), %vector<shared_ptr<Table::block_t>>).max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} | {did push_back(@blocks, elem(%vector<shared_ptr<Table::block_t>>))}
exit {did @curr_version = (elem(%vector<shared_ptr<Table::block_t>>).max_version + 1)} | {fold(0, ite((!{~.max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} && {~}), ~, elem(%vector<shared_ptr<Table::block_t>>)), %vector<shared_ptr<Table::block_t>>)}
exit {did push_back(@blocks, elem(%vector<shared_ptr<Table::block_t>>))} | {fold(0, ite((!{~.max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} && {~}), ~, elem(%vector<shared_ptr<Table::block_t>>)), %vector<shared_ptr<Table::block_t>>)}
exit !{".dat" == get_extension(elem(files(%Directory)))} | !{is_ulong(%Variant)} | {did @next_block_id = max((to(%Variant) + 1), @next_block_id)}
exit !{".dat" == get_extension(elem(files(%Directory)))} | !{is_ulong(%Variant)} | {did at(%map<unsignedlong,string,allocator<pair<unsignedlong,string>>>, to(%Variant)) = get_name(elem(files(%Directory)), true)}
exit !{fold(0, ite((!{~.max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} && {~}), ~, elem(%vector<shared_ptr<Table::block_t>>)), %vector<shared_ptr<Table::block_t>>)} | {did remove(elem(%vector<shared_ptr<Table::block_t>>).file)} | {fold(0, ite((!{~.max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} && {~}), ~, elem(%vector<shared_ptr<Table::block_t>>)), %vector<shared_ptr<Table::block_t>>).max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version}
exit !{".dat" == get_extension(%File)} | !{".tmp" == get_extension(elem(files(%Directory)))} | {did rename(elem(files(%Directory)), get_path(%File))} | {exists(%File)}
at @options := $1
at @root_path := $0
at @last_flush := 0
at @curr_version := 0
at @next_block_id := 0
at @mem_block_size := 0
at @mem_index := ctor(map<shared_ptr<db_val_t>,pair<shared_ptr<db_val_t>,unsignedint>,Table::key_compare_t,allocator<pair<shared_ptr<db_val_t>,pair<shared_ptr<db_val_t>,unsignedint>>>>, ctor(Table::key_compare_t, this))
at @mem_block := ctor(map<pair<shared_ptr<db_val_t>,unsignedint>,shared_ptr<db_val_t>,Table::mem_compare_t,allocator<pair<pair<shared_ptr<db_val_t>,unsignedint>,shared_ptr<db_val_t>>>>, ctor(Table::mem_compare_t, this))
at @write_lock := 0
at create(%Directory)
at open(@debug_log, ($0 ++ "/debug.log"), std::ios_base::app)
at rename(elem(files(%Directory)), get_path(%File)) ;; {".tmp" == get_extension(elem(files(%Directory)))} ;; !{exists(%File)} ;; {".dat" == get_extension(%File)}
at from_string_value(get_name(elem(files(%Directory)), false), %Variant) ;; {".dat" == get_extension(elem(files(%Directory)))}
at at(%map<unsignedlong,string,allocator<pair<unsignedlong,string>>>, to(%Variant)) = get_name(elem(files(%Directory)), true) ;; {".dat" == get_extension(elem(files(%Directory)))} ;; {is_ulong(%Variant)}
at @next_block_id = max((to(%Variant) + 1), @next_block_id) ;; {".dat" == get_extension(elem(files(%Directory)))} ;; {is_ulong(%Variant)}
at push_back(%vector<shared_ptr<Table::block_t>>, read_block(elem(%map<unsignedlong,string,allocator<pair<unsignedlong,string>>>).second))
at sort(begin(%vector<shared_ptr<Table::block_t>>), end(%vector<shared_ptr<Table::block_t>>), by(!{$cb0.min_version == $cb1.min_version} | {$cb1.level < $cb0.level} && {$cb0.min_version < $cb1.min_version} | {$cb0.min_version == $cb1.min_version} && {$cb0.min_version < $cb1.min_version} | {$cb1.level < $cb0.level}))
at @curr_version = (elem(%vector<shared_ptr<Table::block_t>>).max_version + 1) ;; !{fold(0, ite((!{~.max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} && {~}), ~, elem(%vector<shared_ptr<Table::block_t>>)), %vector<shared_ptr<Table::block_t>>)} | {fold(0, ite((!{~.max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} && {~}), ~, elem(%vector<shared_ptr<Table::block_t>>)), %vector<shared_ptr<Table::block_t>>).max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version}
at push_back(@blocks, elem(%vector<shared_ptr<Table::block_t>>)) ;; !{fold(0, ite((!{~.max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} && {~}), ~, elem(%vector<shared_ptr<Table::block_t>>)), %vector<shared_ptr<Table::block_t>>)} | {fold(0, ite((!{~.max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} && {~}), ~, elem(%vector<shared_ptr<Table::block_t>>)), %vector<shared_ptr<Table::block_t>>).max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version}
at remove(elem(%vector<shared_ptr<Table::block_t>>).file) ;; {fold(0, ite((!{~.max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} && {~}), ~, elem(%vector<shared_ptr<Table::block_t>>)), %vector<shared_ptr<Table::block_t>>)} ;; !{fold(0, ite((!{~.max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version} && {~}), ~, elem(%vector<shared_ptr<Table::block_t>>)), %vector<shared_ptr<Table::block_t>>).max_version < elem(%vector<shared_ptr<Table::block_t>>).min_version}
at @last_flush = @curr_version
at open(@write_log, ($0 ++ "/write_log.dat"), "ab")
at open(@write_log, "rb+")
at lock_exclusive(@write_log)
at read_entry_sum(@write_log.in, undef, 0, 0)
at @curr_version = to(out(read_entry_sum‥, @write_log.in, undef, 0)) ;; {4294967295 == out(read_entry_sum‥, @write_log.in, 0, 0)}
at @last_flush = to(out(read_entry_sum‥, @write_log.in, undef, 0)) ;; {4294967295 == out(read_entry_sum‥, @write_log.in, 0, 0)} ;; {"commit" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))} | {"reset" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))} ;; {fold(true, ite({…}, maybe(~), ite((!{4294967295 == out(read_entry_sum‥, @write_log.in, 0, 0)} || !{~} || (!{"commit" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))} && !{"reset" == to_string(out(read_entry_sum‥, @write_log.in, undef, 0))})), ~, false)))}
at insert(%multimap<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>,allocator<pair<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>>>>, out(read_entry_sum‥, @write_log.in, 0, 0), pair(out(read_entry_sum‥, @write_log.in, undef, 0), out(read_entry_sum‥, @write_log.in, undef, 0))) ;; !{4294967295 == out(read_entry_sum‥, @write_log.in, 0, 0)} ;; !{out(read_entry_sum‥, @write_log.in, 0, 0) < @curr_version}
at seek_to(@write_log, maybe(fold(get_input_pos(@write_log.in), ite({…}, maybe(~), get_input_pos(@write_log.in)))))
at insert_entry(elem(%multimap<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>,allocator<pair<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>>>>).first, elem(%multimap<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>,allocator<pair<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>>>>).second.first, elem(%multimap<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>,allocator<pair<unsignedint,pair<shared_ptr<db_val_t>,shared_ptr<db_val_t>>>>>).second.second)
at revert(@curr_version)
at check_rewrite()
fn mmx::Table::read_block
each %shared_ptr<Table::block_t>.name = $0
each open(%shared_ptr<Table::block_t>.file, ((@root_path ++ 47) ++ $0), "rb")
each lock_exclusive(%shared_ptr<Table::block_t>.file)
each read(%shared_ptr<Table::block_t>.file.in, 0, 0, 0)
each read(out(read‥, 0, 0, 0), %shared_ptr<Table::block_t>.level, 0, 0) ;; !{0 < out(read‥, %shared_ptr<Table::block_t>.file.in, 0, 0)}
each read(out(read‥, %shared_ptr<Table::block_t>.level, 0, 0), %shared_ptr<Table::block_t>.min_version, 0, 0) ;; !{0 < out(read‥, %shared_ptr<Table::block_t>.file.in, 0, 0)}
each read(out(read‥, %shared_ptr<Table::block_t>.min_version, 0, 0), %shared_ptr<Table::block_t>.max_version, 0, 0) ;; !{0 < out(read‥, %shared_ptr<Table::block_t>.file.in, 0, 0)}
each read(out(read‥, %shared_ptr<Table::block_t>.max_version, 0, 0), %shared_ptr<Table::block_t>.total_count, 0, 0) ;; !{0 < out(read‥, %shared_ptr<Table::block_t>.file.in, 0, 0)}
each read(out(read‥, %shared_ptr<Table::block_t>.total_count, 0, 0), %shared_ptr<Table::block_t>.index_offset, 0, 0) ;; !{0 < out(read‥, %shared_ptr<Table::block_t>.file.in, 0, 0)}
each seek_to(%shared_ptr<Table::block_t>.file, %shared_ptr<Table::block_t>.index_offset) ;; !{0 < out(read‥, %shared_ptr<Table::block_t>.file.in, 0, 0)}
each read(out(read‥, %shared_ptr<Table::block_t>.index_offset, 0, 0), 0, 0, 0) ;; !{0 < out(read‥, %shared_ptr<Table::block_t>.file.in, 0, 0)}
each resize(%shared_ptr<Table::block_t>.index, out(read‥, out(read‥, %shared_ptr<Table::block_t>.index_offset, 0, 0), 0, 0)) ;; !{0 < out(read‥, %shared_ptr<Table::block_t>.file.in, 0, 0)}
each read(out(read‥, 0, 0, 0), data(%shared_ptr<Table::block_t>.index), (8 * size(%shared_ptr<Table::block_t>.index))) ;; !{0 < out(read‥, %shared_ptr<Table::block_t>.file.in, 0, 0)}
raise {0 < out(read#v, %shared_ptr<Table::block_t>.file.in, 0, 0)}
exit !{0 < out(read‥, %shared_ptr<Table::block_t>.file.in, 0, 0)}
exit {did %shared_ptr<Table::block_t>.name = $0}
exit {did lock_exclusive(%shared_ptr<Table::block_t>.file)}
exit {did open(%shared_ptr<Table::block_t>.file, ((@root_path ++ 47) ++ $0), "rb")}
exit {did read(%shared_ptr<Table::block_t>.file.in, 0, 0, 0)}
exit {did read(out(read‥, %shared_ptr<Table::block_t>.index_offset, 0, 0), 0, 0, 0)}
exit {did read(out(read‥, %shared_ptr<Table::block_t>.level, 0, 0), %shared_ptr<Table::block_t>.min_version, 0, 0)}
exit {did read(out(read‥, %shared_ptr<Table::block_t>.max_version, 0, 0), %shared_ptr<Table::block_t>.total_count, 0, 0)}
exit {did read(out(read‥, %shared_ptr<Table::block_t>.min_version, 0, 0), %shared_ptr<Table::block_t>.max_version, 0, 0)}
exit {did read(out(read‥, %shared_ptr<Table::block_t>.total_count, 0, 0), %shared_ptr<Table::block_t>.index_offset, 0, 0)}
exit {did read(out(read‥, 0, 0, 0), %shared_ptr<Table::block_t>.level, 0, 0)}
exit {did read(out(read‥, 0, 0, 0), data(%shared_ptr<Table::block_t>.index), (8 * size(%shared_ptr<Table::block_t>.index)))}
exit {did resize(%shared_ptr<Table::block_t>.index, out(read‥, out(read‥, %shared_ptr<Table::block_t>.index_offset, 0, 0), 0, 0))}
exit {did seek_to(%shared_ptr<Table::block_t>.file, %shared_ptr<Table::block_t>.index_offset)}
exit {ret = %shared_ptr<Table::block_t>}
at %shared_ptr<Table::block_t>.name = $0
at open(%shared_ptr<Table::block_t>.file, ((@root_path ++ 47) ++ $0), "rb")
at lock_exclusive(%shared_ptr<Table::block_t>.file)
at read(%shared_ptr<Table::block_t>.file.in, 0, 0, 0)
at read(out(read‥, 0, 0, 0), %shared_ptr<Table::block_t>.level, 0, 0)
at read(out(read‥, %shared_ptr<Table::block_t>.level, 0, 0), %shared_ptr<Table::block_t>.min_version, 0, 0)
at read(out(read‥, %shared_ptr<Table::block_t>.min_version, 0, 0), %shared_ptr<Table::block_t>.max_version, 0, 0)
at read(out(read‥, %shared_ptr<Table::block_t>.max_version, 0, 0), %shared_ptr<Table::block_t>.total_count, 0, 0)
at read(out(read‥, %shared_ptr<Table::block_t>.total_count, 0, 0), %shared_ptr<Table::block_t>.index_offset, 0, 0)
at seek_to(%shared_ptr<Table::block_t>.file, %shared_ptr<Table::block_t>.index_offset)
at read(out(read‥, %shared_ptr<Table::block_t>.index_offset, 0, 0), 0, 0, 0)
at resize(%shared_ptr<Table::block_t>.index, out(read‥, out(read‥, %shared_ptr<Table::block_t>.index_offset, 0, 0), 0, 0))
at read(out(read‥, 0, 0, 0), data(%shared_ptr<Table::block_t>.index), (8 * size(%shared_ptr<Table::block_t>.index)))
fn mmx::Table::commit
each write_entry_sum(@write_log.out, 4294967295, new(db_val_t, c_str("commit"), size("commit")), new(db_val_t, $0, 4)) ;; !{$0 == 4294967295} ;; {@curr_version < $0}
each @curr_version = $0 ;; !{$0 == 4294967295} ;; {@curr_version < $0}
raise {$0 == 4294967295}
raise !{$0 == 4294967295} ;; !{@curr_version < $0}
exit !{$0 == 4294967295}
exit {@curr_version < $0}
exit {did @curr_version = $0}
exit {did write_entry_sum(@write_log.out, 4294967295, new(db_val_t, c_str("commit"), size("commit")), new(db_val_t, $0, 4))}
exit !{$1} | !{do_flush()} | {did flush()}
true !{$1}
true {do_flush()}
false !{do_flush()} | {$1}
at write_entry_sum(@write_log.out, 4294967295, new(db_val_t, c_str("commit"), size("commit")), new(db_val_t, $0, 4))
at flush(@write_log)
at @curr_version = $0
at flush() ;; {do_flush()} ;; {$1}
fn mmx::Table::do_flush
never throw …
true !{((entry_overhead * size(@mem_block)) + @mem_block_size) < @options.max_block_size} | {@last_flush < @curr_version}
true !{((entry_overhead * size(@mem_block)) + @mem_block_size) < @options.max_block_size} | !{(-@last_flush + @curr_version) < @options.force_flush_threshold}
false {((entry_overhead * size(@mem_block)) + @mem_block_size) < @options.max_block_size}
false !{@last_flush < @curr_version} | {(-@last_flush + @curr_version) < @options.force_flush_threshold}
fn mmx::Table::revert
never break(loop)
at remove(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0}
at erase(@blocks, fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0}
never create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
at create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).min_version = fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
at seek_to(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file, block_header_size) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
at seek_to(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).file, block_header_size) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
at read_entry(fold(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file.in, out(read_entry‥, undef, 0, 0), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count), undef, 0, 0) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
never get_output_pos(fold(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).file.out, ite({out(read_entry‥, ~?, 0, 0) < $0}, out(write_entry‥, out(read_entry‥, ~?, 0, 0), out(read_entry‥, ~?, undef, 0), out(read_entry‥, ~?, undef, 0)), ~), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count)) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
at push_back(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).index, get_output_pos(fold(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).file.out, ite({out(read_entry‥, ~?, 0, 0) < $0}, out(write_entry‥, out(read_entry‥, ~?, 0, 0), out(read_entry‥, ~?, undef, 0), out(read_entry‥, ~?, undef, 0)), ~), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count))) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0} ;; {out(read_entry‥, fold(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file.in, out(read_entry‥, undef, 0, 0), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count), 0, 0) < $0} ;; !{fold(0, ite({out(read_entry‥, ~?, 0, 0) < $0}, out(read_entry‥, ~?, undef, 0), ~), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count) == out(read_entry‥, fold(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file.in, out(read_entry‥, undef, 0, 0), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count), undef, 0)} | !{fold(0, ite({out(read_entry‥, ~?, 0, 0) < $0}, out(read_entry‥, ~?, undef, 0), ~), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count)}
at create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).max_version = max(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).max_version, out(read_entry‥, fold(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file.in, out(read_entry‥, undef, 0, 0), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count), 0, 0)) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0} ;; {out(read_entry‥, fold(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file.in, out(read_entry‥, undef, 0, 0), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count), 0, 0) < $0}
at create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).total_count = (create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).total_count + 1) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0} ;; {out(read_entry‥, fold(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file.in, out(read_entry‥, undef, 0, 0), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count), 0, 0) < $0}
at create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).index_offset = get_output_pos(fold(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).file.out, ite({out(read_entry‥, ~?, 0, 0) < $0}, out(write_entry‥, out(read_entry‥, ~?, 0, 0), out(read_entry‥, ~?, undef, 0), out(read_entry‥, ~?, undef, 0)), ~), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count)) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
at finish_block(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp"))) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
at close(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
at rename(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
at @mem_block_size = (-fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~))).first.first.size + -fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~))).second.size + @mem_block_size) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@mem_block) == fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~)))} ;; !{fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~))).first.second < $0}
at erase(@mem_block, fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~)))) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@mem_block) == fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~)))} ;; !{fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~))).first.second < $0}
at fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).second = pair(at(@mem_block, pair(fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).first, -1)), lower_bound(@mem_block, pair(fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).first, -1)).first.second) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@mem_index) == fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1)))} ;; !{fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).second.second < $0} ;; !{end(@mem_block) == lower_bound(@mem_block, pair(fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).first, -1))} ;; {fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).first == lower_bound(@mem_block, pair(fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).first, -1)).first.first}
at erase(@mem_index, fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1)))) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@mem_index) == fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1)))} ;; !{fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).second.second < $0} ;; !{fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).first == lower_bound(@mem_block, pair(fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).first, -1)).first.first} | {end(@mem_block) == lower_bound(@mem_block, pair(fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).first, -1))}
each write_entry_sum(@write_log.out, 4294967295, new(db_val_t, c_str("revert"), size("revert")), new(db_val_t, $0, 4)) ;; !{@write_lock} ;; !{@curr_version < $0}
each remove(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0}
each erase(@blocks, fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0}
each create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).min_version = fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
each seek_to(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file, block_header_size) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
each seek_to(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).file, block_header_size) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
each read_entry(fold(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file.in, out(read_entry‥, undef, 0, 0), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count), undef, 0, 0) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
each push_back(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).index, get_output_pos(fold(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).file.out, ite({out(read_entry‥, ~?, 0, 0) < $0}, out(write_entry‥, out(read_entry‥, ~?, 0, 0), out(read_entry‥, ~?, undef, 0), out(read_entry‥, ~?, undef, 0)), ~), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count))) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0} ;; {out(read_entry‥, fold(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file.in, out(read_entry‥, undef, 0, 0), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count), 0, 0) < $0} ;; !{fold(0, ite({out(read_entry‥, ~?, 0, 0) < $0}, out(read_entry‥, ~?, undef, 0), ~), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count) == out(read_entry‥, fold(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file.in, out(read_entry‥, undef, 0, 0), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count), undef, 0)} | !{fold(0, ite({out(read_entry‥, ~?, 0, 0) < $0}, out(read_entry‥, ~?, undef, 0), ~), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count)}
each create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).max_version = max(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).max_version, out(read_entry‥, fold(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file.in, out(read_entry‥, undef, 0, 0), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count), 0, 0)) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0} ;; {out(read_entry‥, fold(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file.in, out(read_entry‥, undef, 0, 0), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count), 0, 0) < $0}
each create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).total_count = (create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).total_count + 1) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0} ;; {out(read_entry‥, fold(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file.in, out(read_entry‥, undef, 0, 0), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count), 0, 0) < $0}
each create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).index_offset = get_output_pos(fold(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).file.out, ite({out(read_entry‥, ~?, 0, 0) < $0}, out(write_entry‥, out(read_entry‥, ~?, 0, 0), out(read_entry‥, ~?, undef, 0), out(read_entry‥, ~?, undef, 0)), ~), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count)) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
each finish_block(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp"))) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
each close(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
each rename(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
each @mem_block_size = (-fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~))).first.first.size + -fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~))).second.size + @mem_block_size) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@mem_block) == fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~)))} ;; !{fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~))).first.second < $0}
each erase(@mem_block, fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~)))) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@mem_block) == fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~)))} ;; !{fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~))).first.second < $0}
each fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).second = pair(at(@mem_block, pair(fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).first, -1)), lower_bound(@mem_block, pair(fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).first, -1)).first.second) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@mem_index) == fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1)))} ;; !{fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).second.second < $0} ;; !{end(@mem_block) == lower_bound(@mem_block, pair(fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).first, -1))} ;; {fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).first == lower_bound(@mem_block, pair(fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).first, -1)).first.first}
each erase(@mem_index, fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1)))) ;; !{@write_lock} ;; !{@curr_version < $0} ;; !{end(@mem_index) == fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1)))} ;; !{fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).second.second < $0} ;; !{fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).first == lower_bound(@mem_block, pair(fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).first, -1)).first.first} | {end(@mem_block) == lower_bound(@mem_block, pair(fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1))).first, -1))}
each @curr_version = $0 ;; !{@write_lock} ;; !{@curr_version < $0}
each @last_flush = min($0, @last_flush) ;; !{@write_lock} ;; !{@curr_version < $0}
raise {@write_lock}
raise !{@write_lock} ;; {@curr_version < $0}
value fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~)))
value fold(0, ite({out(read_entry#v, ~?, 0, 0) < $0}, out(read_entry#v, ~?, undef, 0), ~), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count)
value fold(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file.in, out(read_entry#v, undef, 0, 0), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count)
value fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1)))
value fold(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).file.out, ite({out(read_entry#v, ~?, 0, 0) < $0}, out(write_entry#v, out(read_entry#v, ~?, 0, 0), out(read_entry#v, ~?, undef, 0), out(read_entry#v, ~?, undef, 0)), ~), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count)
exit !{@curr_version < $0}
exit !{@write_lock}
exit {did @curr_version = $0}
exit {did @last_flush = min($0, @last_flush)}
exit {did write_entry_sum(@write_log.out, 4294967295, new(db_val_t, c_str("revert"), size("revert")), new(db_val_t, $0, 4))}
exit {end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))}
exit {end(@mem_block) == fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~)))}
exit {end(@mem_index) == fold(begin(@mem_index), ite((!{~.second.second < $0} && (!{lower_bound(@mem_block, pair(~.first, -1)).first.first == ~.first} || {end(@mem_block) == lower_bound(@mem_block, pair(~.first, -1))})), erase(@mem_index, ~), (~ + 1)))}
exit {did @mem_block_size = (-fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~))).first.first.size + -fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~))).second.size + @mem_block_size)} | {fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~))).first.second < $0}
exit {did erase(@blocks, fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))))} | {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0}
exit {did erase(@mem_block, fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~))))} | {fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~))).first.second < $0}
exit {did remove(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file)} | {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0}
exit !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} | {did close(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file)} | {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
exit !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} | {did create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).min_version = fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version} | {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
exit !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} | {did finish_block(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")))} | {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
exit !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} | {did read_entry(fold(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file.in, out(read_entry‥, undef, 0, 0), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count), undef, 0, 0)} | {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
exit !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} | {did rename(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name)} | {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
exit !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} | {did seek_to(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).file, block_header_size)} | {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
exit !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} | {did seek_to(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file, block_header_size)} | {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
at lock_guard(@mutex)
at write_entry_sum(@write_log.out, 4294967295, new(db_val_t, c_str("revert"), size("revert")), new(db_val_t, $0, 4))
at flush(@write_log)
at remove(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file) ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0}
at erase(@blocks, fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))) ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0}
at create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).min_version = fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
at seek_to(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file, block_header_size) ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
at seek_to(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")).file, block_header_size) ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
at read_entry(fold(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file.in, out(read_entry‥, undef, 0, 0), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).total_count), undef, 0, 0) ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
at finish_block(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp"))) ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
at close(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).file) ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
at rename(create_block(fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).level, (fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name ++ ".tmp")), fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).name) ;; !{end(@blocks) == fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~)))} ;; {fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).min_version < $0} ;; !{fold(begin(@blocks), ite({~.min_version < $0}, (~ + 1), erase(@blocks, ~))).max_version < $0}
at @mem_block_size = (-fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~))).first.first.size + -fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~))).second.size + @mem_block_size) ;; !{end(@mem_block) == fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~)))} ;; !{fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~))).first.second < $0}
at erase(@mem_block, fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~)))) ;; !{end(@mem_block) == fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~)))} ;; !{fold(begin(@mem_block), ite({~.first.second < $0}, (~ + 1), erase(@mem_block, ~))).first.second < $0}
at @curr_version = $0
at @last_flush = min($0, @last_flush)
fn mmx::Table::flush
never get_output_pos(fold(create_block(0, "flush.tmp").file.out, out(write_entry‥, elem(@mem_block).first.second, elem(@mem_block).first.first, elem(@mem_block).second), @mem_block)) ;; !{@write_lock} ;; !{empty(@mem_block)}
at push_back(create_block(0, "flush.tmp").index, get_output_pos(fold(create_block(0, "flush.tmp").file.out, out(write_entry‥, elem(@mem_block).first.second, elem(@mem_block).first.first, elem(@mem_block).second), @mem_block))) ;; !{@write_lock} ;; !{empty(@mem_block)} ;; !{elem(@mem_block).first.first == fold(0, elem(@mem_block).first.first, @mem_block)} | !{fold(0, elem(@mem_block).first.first, @mem_block)}
at write_entry(fold(create_block(0, "flush.tmp").file.out, out(write_entry‥, elem(@mem_block).first.second, elem(@mem_block).first.first, elem(@mem_block).second), @mem_block), elem(@mem_block).first.second, elem(@mem_block).first.first, elem(@mem_block).second) ;; !{@write_lock} ;; !{empty(@mem_block)}
at create_block(0, "flush.tmp").index_offset = get_output_pos(fold(create_block(0, "flush.tmp").file.out, out(write_entry‥, elem(@mem_block).first.second, elem(@mem_block).first.first, elem(@mem_block).second), @mem_block)) ;; !{@write_lock} ;; !{empty(@mem_block)}
each @last_flush = @curr_version ;; !{@write_lock}
each open(@write_log, "wb") ;; !{@write_lock} ;; {empty(@mem_block)}
each lock_exclusive(@write_log) ;; !{@write_lock} ;; {empty(@mem_block)}
each write_entry_sum(@write_log.out, 4294967295, new(db_val_t, c_str("reset"), size("reset")), new(db_val_t, @curr_version, 4)) ;; !{@write_lock} ;; {empty(@mem_block)}
each seek_to(create_block(0, "flush.tmp").file, block_header_size) ;; !{@write_lock} ;; !{empty(@mem_block)}
each push_back(create_block(0, "flush.tmp").index, get_output_pos(fold(create_block(0, "flush.tmp").file.out, out(write_entry‥, elem(@mem_block).first.second, elem(@mem_block).first.first, elem(@mem_block).second), @mem_block))) ;; !{@write_lock} ;; !{empty(@mem_block)} ;; !{elem(@mem_block).first.first == fold(0, elem(@mem_block).first.first, @mem_block)} | !{fold(0, elem(@mem_block).first.first, @mem_block)}
each create_block(0, "flush.tmp").total_count = (create_block(0, "flush.tmp").total_count + 1) ;; !{@write_lock} ;; !{empty(@mem_block)}
each create_block(0, "flush.tmp").min_version = min(create_block(0, "flush.tmp").min_version, elem(@mem_block).first.second) ;; !{@write_lock} ;; !{empty(@mem_block)}
each create_block(0, "flush.tmp").max_version = max(create_block(0, "flush.tmp").max_version, elem(@mem_block).first.second) ;; !{@write_lock} ;; !{empty(@mem_block)}
each write_entry(fold(create_block(0, "flush.tmp").file.out, out(write_entry‥, elem(@mem_block).first.second, elem(@mem_block).first.first, elem(@mem_block).second), @mem_block), elem(@mem_block).first.second, elem(@mem_block).first.first, elem(@mem_block).second) ;; !{@write_lock} ;; !{empty(@mem_block)}
each create_block(0, "flush.tmp").index_offset = get_output_pos(fold(create_block(0, "flush.tmp").file.out, out(write_entry‥, elem(@mem_block).first.second, elem(@mem_block).first.first, elem(@mem_block).second), @mem_block)) ;; !{@write_lock} ;; !{empty(@mem_block)}
each finish_block(create_block(0, "flush.tmp")) ;; !{@write_lock} ;; !{empty(@mem_block)}
each @next_block_id = (@next_block_id + 1) ;; !{@write_lock} ;; !{empty(@mem_block)}
each rename(create_block(0, "flush.tmp"), @next_block_id) ;; !{@write_lock} ;; !{empty(@mem_block)}
each clear(@mem_index) ;; !{@write_lock} ;; !{empty(@mem_block)}
each clear(@mem_block) ;; !{@write_lock} ;; !{empty(@mem_block)}
each push_back(@blocks, create_block(0, "flush.tmp")) ;; !{@write_lock} ;; !{empty(@mem_block)}
each @mem_block_size = 0 ;; !{@write_lock} ;; !{empty(@mem_block)}
each open(@write_log, "wb") ;; !{@write_lock} ;; !{empty(@mem_block)}
each lock_exclusive(@write_log) ;; !{@write_lock} ;; !{empty(@mem_block)}
each write_entry_sum(@write_log.out, 4294967295, new(db_val_t, c_str("reset"), size("reset")), new(db_val_t, @curr_version, 4)) ;; !{@write_lock} ;; !{empty(@mem_block)}
each check_rewrite() ;; !{@write_lock} ;; !{empty(@mem_block)}
never break(@mem_block)
raise {@write_lock}
value fold(0, elem(@mem_block).first.first, @mem_block)
value fold(create_block(0, "flush.tmp").file.out, out(write_entry#v, elem(@mem_block).first.second, elem(@mem_block).first.first, elem(@mem_block).second), @mem_block)
exit !{@write_lock}
exit {did @last_flush = @curr_version}
exit {did lock_exclusive(@write_log)}
exit {did open(@write_log, "wb")}
exit {did write_entry_sum(@write_log.out, 4294967295, new(db_val_t, c_str("reset"), size("reset")), new(db_val_t, @curr_version, 4))}
exit {did @mem_block_size = 0} | {empty(@mem_block)}
exit {did @next_block_id = (@next_block_id + 1)} | {empty(@mem_block)}
exit {did check_rewrite()} | {empty(@mem_block)}
exit {did clear(@mem_block)} | {empty(@mem_block)}
exit {did clear(@mem_index)} | {empty(@mem_block)}
exit {did create_block(0, "flush.tmp").index_offset = get_output_pos(fold(create_block(0, "flush.tmp").file.out, out(write_entry‥, elem(@mem_block).first.second, elem(@mem_block).first.first, elem(@mem_block).second), @mem_block))} | {empty(@mem_block)}
exit {did create_block(0, "flush.tmp").max_version = max(create_block(0, "flush.tmp").max_version, elem(@mem_block).first.second)} | {empty(@mem_block)}
exit {did create_block(0, "flush.tmp").min_version = min(create_block(0, "flush.tmp").min_version, elem(@mem_block).first.second)} | {empty(@mem_block)}
exit {did create_block(0, "flush.tmp").total_count = (create_block(0, "flush.tmp").total_count + 1)} | {empty(@mem_block)}
exit {did finish_block(create_block(0, "flush.tmp"))} | {empty(@mem_block)}
exit {did push_back(@blocks, create_block(0, "flush.tmp"))} | {empty(@mem_block)}
exit {did rename(create_block(0, "flush.tmp"), @next_block_id)} | {empty(@mem_block)}
exit {did seek_to(create_block(0, "flush.tmp").file, block_header_size)} | {empty(@mem_block)}
exit {did write_entry(fold(create_block(0, "flush.tmp").file.out, out(write_entry‥, elem(@mem_block).first.second, elem(@mem_block).first.first, elem(@mem_block).second), @mem_block), elem(@mem_block).first.second, elem(@mem_block).first.first, elem(@mem_block).second)} | {empty(@mem_block)}
exit {did push_back(create_block(0, "flush.tmp").index, get_output_pos(fold(create_block(0, "flush.tmp").file.out, out(write_entry‥, elem(@mem_block).first.second, elem(@mem_block).first.first, elem(@mem_block).second), @mem_block)))} | {elem(@mem_block).first.first == fold(0, elem(@mem_block).first.first, @mem_block)} | {empty(@mem_block)}
exit {did push_back(create_block(0, "flush.tmp").index, get_output_pos(fold(create_block(0, "flush.tmp").file.out, out(write_entry‥, elem(@mem_block).first.second, elem(@mem_block).first.first, elem(@mem_block).second), @mem_block)))} | {empty(@mem_block)} | {fold(0, elem(@mem_block).first.first, @mem_block)}
at lock_guard(@mutex)
at @last_flush = @curr_version
at open(@write_log, "wb")
at lock_exclusive(@write_log)
at write_entry_sum(@write_log.out, 4294967295, new(db_val_t, c_str("reset"), size("reset")), new(db_val_t, @curr_version, 4))
at flush(@write_log)
at reserve(create_block(0, "flush.tmp").index, size(@mem_index)) ;; !{empty(@mem_block)}
at seek_to(create_block(0, "flush.tmp").file, block_header_size) ;; !{empty(@mem_block)}
at push_back(create_block(0, "flush.tmp").index, get_output_pos(fold(create_block(0, "flush.tmp").file.out, out(write_entry‥, elem(@mem_block).first.second, elem(@mem_block).first.first, elem(@mem_block).second), @mem_block))) ;; !{empty(@mem_block)} ;; !{elem(@mem_block).first.first == fold(0, elem(@mem_block).first.first, @mem_block)} | !{fold(0, elem(@mem_block).first.first, @mem_block)}
at create_block(0, "flush.tmp").total_count = (create_block(0, "flush.tmp").total_count + 1) ;; !{empty(@mem_block)}
at create_block(0, "flush.tmp").min_version = min(create_block(0, "flush.tmp").min_version, elem(@mem_block).first.second) ;; !{empty(@mem_block)}
at create_block(0, "flush.tmp").max_version = max(create_block(0, "flush.tmp").max_version, elem(@mem_block).first.second) ;; !{empty(@mem_block)}
at write_entry(fold(create_block(0, "flush.tmp").file.out, out(write_entry‥, elem(@mem_block).first.second, elem(@mem_block).first.first, elem(@mem_block).second), @mem_block), elem(@mem_block).first.second, elem(@mem_block).first.first, elem(@mem_block).second) ;; !{empty(@mem_block)}
at create_block(0, "flush.tmp").index_offset = get_output_pos(fold(create_block(0, "flush.tmp").file.out, out(write_entry‥, elem(@mem_block).first.second, elem(@mem_block).first.first, elem(@mem_block).second), @mem_block)) ;; !{empty(@mem_block)}
at finish_block(create_block(0, "flush.tmp")) ;; !{empty(@mem_block)}
at @next_block_id = (@next_block_id + 1) ;; !{empty(@mem_block)}
at rename(create_block(0, "flush.tmp"), @next_block_id) ;; !{empty(@mem_block)}
at clear(@mem_index) ;; !{empty(@mem_block)}
at clear(@mem_block) ;; !{empty(@mem_block)}
at push_back(@blocks, create_block(0, "flush.tmp")) ;; !{empty(@mem_block)}
at @mem_block_size = 0 ;; !{empty(@mem_block)}
at check_rewrite() ;; !{empty(@mem_block)}
fn mmx::Table::rewrite
never break(loop)
never get_output_pos(fold(create_block($1, "rewrite.tmp").file.out, out(write_entry‥, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.second, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.value))) ;; !{empty($0)}
at push_back(create_block($1, "rewrite.tmp").index, get_output_pos(fold(create_block($1, "rewrite.tmp").file.out, out(write_entry‥, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.second, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.value)))) ;; !{empty($0)} ;; !{empty(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>)} ;; !{begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first == fold(0, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first)} | !{fold(0, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first)}
at write_entry(fold(create_block($1, "rewrite.tmp").file.out, out(write_entry‥, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.second, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.value)), begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.second, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.value) ;; !{empty($0)} ;; !{empty(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>)}
at create_block($1, "rewrite.tmp").index_offset = get_output_pos(fold(create_block($1, "rewrite.tmp").file.out, out(write_entry‥, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.second, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.value))) ;; !{empty($0)}
each seek_to(elem($0).file, block_header_size) ;; !{empty($0)} ;; {elem($0).total_count}
each %pointer_t.block = elem($0) ;; !{empty($0)} ;; {elem($0).total_count}
each read_entry(elem($0).file.in, undef, 0, %pointer_t.value) ;; !{empty($0)} ;; {elem($0).total_count}
each at(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>, pair(out(read_entry‥, elem($0).file.in, undef, %pointer_t.value), out(read_entry‥, elem($0).file.in, 0, %pointer_t.value))) = %pointer_t ;; !{empty($0)} ;; {elem($0).total_count}
each seek_to(create_block($1, "rewrite.tmp").file, block_header_size) ;; !{empty($0)}
each push_back(create_block($1, "rewrite.tmp").index, get_output_pos(fold(create_block($1, "rewrite.tmp").file.out, out(write_entry‥, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.second, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.value)))) ;; !{empty($0)} ;; !{empty(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>)} ;; !{begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first == fold(0, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first)} | !{fold(0, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first)}
each create_block($1, "rewrite.tmp").total_count = (create_block($1, "rewrite.tmp").total_count + 1) ;; !{empty($0)} ;; !{empty(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>)}
each create_block($1, "rewrite.tmp").min_version = min(begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.second, create_block($1, "rewrite.tmp").min_version) ;; !{empty($0)} ;; !{empty(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>)}
each create_block($1, "rewrite.tmp").max_version = max(begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.second, create_block($1, "rewrite.tmp").max_version) ;; !{empty($0)} ;; !{empty(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>)}
each write_entry(fold(create_block($1, "rewrite.tmp").file.out, out(write_entry‥, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.second, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.value)), begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.second, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.value) ;; !{empty($0)} ;; !{empty(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>)}
each read_entry(begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.block.file.in, undef, 0, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.value) ;; !{empty($0)} ;; !{empty(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>)} ;; {(begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.offset + 1) < begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.block.total_count}
each at(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>, pair(out(read_entry‥, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.block.file.in, undef, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.value), out(read_entry‥, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.block.file.in, 0, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.value))) = begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second ;; !{empty($0)} ;; !{empty(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>)} ;; {(begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.offset + 1) < begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.block.total_count}
each erase(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>)) ;; !{empty($0)} ;; !{empty(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>)}
each create_block($1, "rewrite.tmp").index_offset = get_output_pos(fold(create_block($1, "rewrite.tmp").file.out, out(write_entry‥, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.second, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.value))) ;; !{empty($0)}
each finish_block(create_block($1, "rewrite.tmp")) ;; !{empty($0)}
never break($0)
raise {empty($0)}
raise !{empty($0)} ;; !{$1 == (elem($0).level + 1)}
value fold(0, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first)
value fold(create_block($1, "rewrite.tmp").file.out, out(write_entry#v, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.second, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.value))
exit !{empty($0)}
exit {$1 == (elem($0).level + 1)}
exit {did create_block($1, "rewrite.tmp").index_offset = get_output_pos(fold(create_block($1, "rewrite.tmp").file.out, out(write_entry‥, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.second, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.value)))}
exit {did finish_block(create_block($1, "rewrite.tmp"))}
exit {did seek_to(create_block($1, "rewrite.tmp").file, block_header_size)}
exit {empty(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>)}
exit {ret = create_block($1, "rewrite.tmp")}
exit !{elem($0).total_count} | {did %pointer_t.block = elem($0)}
exit !{elem($0).total_count} | {did at(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>, pair(out(read_entry‥, elem($0).file.in, undef, %pointer_t.value), out(read_entry‥, elem($0).file.in, 0, %pointer_t.value))) = %pointer_t}
exit !{elem($0).total_count} | {did read_entry(elem($0).file.in, undef, 0, %pointer_t.value)}
exit !{elem($0).total_count} | {did seek_to(elem($0).file, block_header_size)}
exit {did push_back(create_block($1, "rewrite.tmp").index, get_output_pos(fold(create_block($1, "rewrite.tmp").file.out, out(write_entry‥, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.second, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.value))))} | {fold(0, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first)}
at seek_to(elem($0).file, block_header_size) ;; {elem($0).total_count}
at %pointer_t.block = elem($0) ;; {elem($0).total_count}
at read_entry(elem($0).file.in, undef, 0, %pointer_t.value) ;; {elem($0).total_count}
at at(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>, pair(out(read_entry‥, elem($0).file.in, undef, %pointer_t.value), out(read_entry‥, elem($0).file.in, 0, %pointer_t.value))) = %pointer_t ;; {elem($0).total_count}
at reserve(create_block($1, "rewrite.tmp").index, total($0, size(elem($0).index)))
at seek_to(create_block($1, "rewrite.tmp").file, block_header_size)
at create_block($1, "rewrite.tmp").total_count = (create_block($1, "rewrite.tmp").total_count + 1) ;; !{empty(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>)}
at create_block($1, "rewrite.tmp").min_version = min(begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.second, create_block($1, "rewrite.tmp").min_version) ;; !{empty(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>)}
at create_block($1, "rewrite.tmp").max_version = max(begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.second, create_block($1, "rewrite.tmp").max_version) ;; !{empty(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>)}
at begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.offset = (begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.offset + 1) ;; !{empty(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>)}
at read_entry(begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.block.file.in, undef, 0, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.value) ;; !{empty(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>)} ;; {(begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.offset + 1) < begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.block.total_count}
at erase(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>)) ;; !{empty(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>)}
at create_block($1, "rewrite.tmp").index_offset = get_output_pos(fold(create_block($1, "rewrite.tmp").file.out, out(write_entry‥, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.second, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).first.first, begin(%map<pair<shared_ptr<db_val_t>,unsignedint>,pointer_t,Table::mem_compare_t>).second.value)))
at finish_block(create_block($1, "rewrite.tmp"))
fn mmx::Table::check_rewrite
never rewrite(%list<shared_ptr<Table::block_t>>, (fold(0, elem(@blocks).level, @blocks) + 1)) ;; {1 < @options.level_factor} ;; {@options.level_factor < size(%list<shared_ptr<Table::block_t>>)}
each push_back(%list<shared_ptr<Table::block_t>>, elem(@blocks)) ;; {1 < @options.level_factor} ;; {elem(@blocks).level == fold(0, elem(@blocks).level, @blocks)} | {empty(%list<shared_ptr<Table::block_t>>)}
each clear(%list<shared_ptr<Table::block_t>>) ;; {1 < @options.level_factor} ;; !{empty(%list<shared_ptr<Table::block_t>>)} ;; !{elem(@blocks).level == fold(0, elem(@blocks).level, @blocks)}
each push_back(%list<shared_ptr<Table::block_t>>, elem(@blocks)) ;; {1 < @options.level_factor} ;; !{empty(%list<shared_ptr<Table::block_t>>)} ;; !{elem(@blocks).level == fold(0, elem(@blocks).level, @blocks)}
each pop_back(%list<shared_ptr<Table::block_t>>) ;; {1 < @options.level_factor} ;; {@options.level_factor < size(%list<shared_ptr<Table::block_t>>)}
each @next_block_id = (@next_block_id + 1) ;; {1 < @options.level_factor} ;; {@options.level_factor < size(%list<shared_ptr<Table::block_t>>)}
each rename(rewrite(%list<shared_ptr<Table::block_t>>, (fold(0, elem(@blocks).level, @blocks) + 1)), @next_block_id) ;; {1 < @options.level_factor} ;; {@options.level_factor < size(%list<shared_ptr<Table::block_t>>)}
each remove(elem(%list<shared_ptr<Table::block_t>>).file) ;; {1 < @options.level_factor} ;; {@options.level_factor < size(%list<shared_ptr<Table::block_t>>)}
each insert(@blocks, fold(begin(@blocks), ite((!{elem(@blocks).level == ~?} && !{empty(%list<shared_ptr<Table::block_t>>)}), iter(@blocks), ~), @blocks), rewrite(%list<shared_ptr<Table::block_t>>, (fold(0, elem(@blocks).level, @blocks) + 1))) ;; {1 < @options.level_factor} ;; {@options.level_factor < size(%list<shared_ptr<Table::block_t>>)}
each erase(@blocks, fold(begin(@blocks), ite((!{elem(@blocks).level == ~?} && !{empty(%list<shared_ptr<Table::block_t>>)}), iter(@blocks), ~), @blocks), ite((!{@options.level_factor < size(%list<shared_ptr<Table::block_t>>)} || (!{elem(@blocks).level == fold(0, elem(@blocks).level, @blocks)} && !{empty(%list<shared_ptr<Table::block_t>>)})), begin(@blocks), iter(@blocks))) ;; {1 < @options.level_factor} ;; {@options.level_factor < size(%list<shared_ptr<Table::block_t>>)}
each check_rewrite() ;; {1 < @options.level_factor} ;; {@options.level_factor < size(%list<shared_ptr<Table::block_t>>)}
never break(%list<shared_ptr<Table::block_t>>)
never throw …
value fold(0, elem(@blocks).level, @blocks)
value fold(begin(@blocks), ite((!{elem(@blocks).level == ~?} && !{empty(%list<shared_ptr<Table::block_t>>)}), iter(@blocks), ~), @blocks)
exit !{1 < @options.level_factor} | {did push_back(%list<shared_ptr<Table::block_t>>, elem(@blocks))}
exit !{1 < @options.level_factor} | !{@options.level_factor < size(%list<shared_ptr<Table::block_t>>)} | {did @next_block_id = (@next_block_id + 1)}
exit !{1 < @options.level_factor} | !{@options.level_factor < size(%list<shared_ptr<Table::block_t>>)} | {did check_rewrite()}
exit !{1 < @options.level_factor} | !{@options.level_factor < size(%list<shared_ptr<Table::block_t>>)} | {did erase(@blocks, fold(begin(@blocks), ite((!{elem(@blocks).level == ~?} && !{empty(%list<shared_ptr<Table::block_t>>)}), iter(@blocks), ~), @blocks), ite((!{@options.level_factor < size(%list<shared_ptr<Table::block_t>>)} || (!{elem(@blocks).level == fold(0, elem(@blocks).level, @blocks)} && !{empty(%list<shared_ptr<Table::block_t>>)})), begin(@blocks), iter(@blocks)))}
exit !{1 < @options.level_factor} | !{@options.level_factor < size(%list<shared_ptr<Table::block_t>>)} | {did insert(@blocks, fold(begin(@blocks), ite((!{elem(@blocks).level == ~?} && !{empty(%list<shared_ptr<Table::block_t>>)}), iter(@blocks), ~), @blocks), rewrite(%list<shared_ptr<Table::block_t>>, (fold(0, elem(@blocks).level, @blocks) + 1)))}
exit !{1 < @options.level_factor} | !{@options.level_factor < size(%list<shared_ptr<Table::block_t>>)} | {did pop_back(%list<shared_ptr<Table::block_t>>)}
exit !{1 < @options.level_factor} | !{@options.level_factor < size(%list<shared_ptr<Table::block_t>>)} | {did remove(elem(%list<shared_ptr<Table::block_t>>).file)}
exit !{1 < @options.level_factor} | !{@options.level_factor < size(%list<shared_ptr<Table::block_t>>)} | {did rename(rewrite(%list<shared_ptr<Table::block_t>>, (fold(0, elem(@blocks).level, @blocks) + 1)), @next_block_id)}
exit !{1 < @options.level_factor} | !{@options.level_factor < size(%list<shared_ptr<Table::block_t>>)} | !{elem(@blocks).level == fold(0, elem(@blocks).level, @blocks)} | {did break(@blocks)}
exit !{1 < @options.level_factor} | !{@options.level_factor < size(%list<shared_ptr<Table::block_t>>)} | !{empty(%list<shared_ptr<Table::block_t>>)} | {did break(@blocks)}
exit !{1 < @options.level_factor} | {did clear(%list<shared_ptr<Table::block_t>>)} | {elem(@blocks).level == fold(0, elem(@blocks).level, @blocks)} | {empty(%list<shared_ptr<Table::block_t>>)}
at push_back(%list<shared_ptr<Table::block_t>>, elem(@blocks)) ;; {1 < @options.level_factor}
never break(@blocks) ;; {1 < @options.level_factor} ;; {elem(@blocks).level == fold(0, elem(@blocks).level, @blocks)} | {empty(%list<shared_ptr<Table::block_t>>)} ;; {@options.level_factor < size(%list<shared_ptr<Table::block_t>>)}
at clear(%list<shared_ptr<Table::block_t>>) ;; {1 < @options.level_factor} ;; !{empty(%list<shared_ptr<Table::block_t>>)} ;; !{elem(@blocks).level == fold(0, elem(@blocks).level, @blocks)}
at pop_back(%list<shared_ptr<Table::block_t>>) ;; {1 < @options.level_factor} ;; {@options.level_factor < size(%list<shared_ptr<Table::block_t>>)}
at @next_block_id = (@next_block_id + 1) ;; {1 < @options.level_factor} ;; {@options.level_factor < size(%list<shared_ptr<Table::block_t>>)}
at rename(rewrite(%list<shared_ptr<Table::block_t>>, (fold(0, elem(@blocks).level, @blocks) + 1)), @next_block_id) ;; {1 < @options.level_factor} ;; {@options.level_factor < size(%list<shared_ptr<Table::block_t>>)}
at remove(elem(%list<shared_ptr<Table::block_t>>).file) ;; {1 < @options.level_factor} ;; {@options.level_factor < size(%list<shared_ptr<Table::block_t>>)}
at insert(@blocks, fold(begin(@blocks), ite((!{elem(@blocks).level == ~?} && !{empty(%list<shared_ptr<Table::block_t>>)}), iter(@blocks), ~), @blocks), rewrite(%list<shared_ptr<Table::block_t>>, (fold(0, elem(@blocks).level, @blocks) + 1))) ;; {1 < @options.level_factor} ;; {@options.level_factor < size(%list<shared_ptr<Table::block_t>>)}
at erase(@blocks, fold(begin(@blocks), ite((!{elem(@blocks).level == ~?} && !{empty(%list<shared_ptr<Table::block_t>>)}), iter(@blocks), ~), @blocks), ite((!{@options.level_factor < size(%list<shared_ptr<Table::block_t>>)} || (!{elem(@blocks).level == fold(0, elem(@blocks).level, @blocks)} && !{empty(%list<shared_ptr<Table::block_t>>)})), begin(@blocks), iter(@blocks))) ;; {1 < @options.level_factor} ;; {@options.level_factor < size(%list<shared_ptr<Table::block_t>>)}
at check_rewrite() ;; {1 < @options.level_factor} ;; {@options.level_factor < size(%list<shared_ptr<Table::block_t>>)}
fn mmx::Table::write_block_header
each write($0, 0, 0, 0)
each write(out(write‥, 0, 0, 0), $1.level, 0, 0)
each write(out(write‥, $1.level, 0, 0), $1.min_version, 0, 0)
each write(out(write‥, $1.min_version, 0, 0), $1.max_version, 0, 0)
each write(out(write‥, $1.max_version, 0, 0), $1.total_count, 0, 0)
each write(out(write‥, $1.total_count, 0, 0), $1.index_offset, 0, 0)
never throw …
exit {did write($0, 0, 0, 0)}
exit {did write(out(write‥, $1.level, 0, 0), $1.min_version, 0, 0)}
exit {did write(out(write‥, $1.max_version, 0, 0), $1.total_count, 0, 0)}
exit {did write(out(write‥, $1.min_version, 0, 0), $1.max_version, 0, 0)}
exit {did write(out(write‥, $1.total_count, 0, 0), $1.index_offset, 0, 0)}
exit {did write(out(write‥, 0, 0, 0), $1.level, 0, 0)}
exit {out $0 = out(write‥, $1.index_offset, 0, 0)}
at write($0, 0, 0, 0)
at write(out(write‥, 0, 0, 0), $1.level, 0, 0)
at write(out(write‥, $1.level, 0, 0), $1.min_version, 0, 0)
at write(out(write‥, $1.min_version, 0, 0), $1.max_version, 0, 0)
at write(out(write‥, $1.max_version, 0, 0), $1.total_count, 0, 0)
at write(out(write‥, $1.total_count, 0, 0), $1.index_offset, 0, 0)
fn mmx::Table::write_block_index
each write($0, size($1.index), 0, 0)
each write(out(write‥, size($1.index), 0, 0), data($1.index), (8 * size($1.index)))
never throw …
exit {did write($0, size($1.index), 0, 0)}
exit {did write(out(write‥, size($1.index), 0, 0), data($1.index), (8 * size($1.index)))}
exit {out $0 = out(write‥, size($1.index), 0, 0)}
at write($0, size($1.index), 0, 0)
at write(out(write‥, size($1.index), 0, 0), data($1.index), (8 * size($1.index)))
fn mmx::Table::create_block
each %shared_ptr<Table::block_t>.level = $0
each %shared_ptr<Table::block_t>.name = $1
each open(%shared_ptr<Table::block_t>.file, ((@root_path ++ 47) ++ $1), "wb")
each %shared_ptr<Table::block_t>.min_version = 4294967295
never throw …
exit {did %shared_ptr<Table::block_t>.level = $0}
exit {did %shared_ptr<Table::block_t>.min_version = 4294967295}
exit {did %shared_ptr<Table::block_t>.name = $1}
exit {did open(%shared_ptr<Table::block_t>.file, ((@root_path ++ 47) ++ $1), "wb")}
exit {ret = %shared_ptr<Table::block_t>}
at %shared_ptr<Table::block_t>.level = $0
at %shared_ptr<Table::block_t>.name = $1
at open(%shared_ptr<Table::block_t>.file, ((@root_path ++ 47) ++ $1), "wb")
at %shared_ptr<Table::block_t>.min_version = 4294967295
fn mmx::Table::finish_block
each seek_begin($0.file)
each write_block_header($0.file.out, $0)
each seek_to($0.file, $0.index_offset)
each write_block_index($0.file.out, $0)
each close($0.file)
never throw …
exit {did close($0.file)}
exit {did seek_begin($0.file)}
exit {did seek_to($0.file, $0.index_offset)}
exit {did write_block_header($0.file.out, $0)}
exit {did write_block_index($0.file.out, $0)}
at seek_begin($0.file)
at write_block_header($0.file.out, $0)
at seek_to($0.file, $0.index_offset)
at write_block_index($0.file.out, $0)
at close($0.file)
fn mmx::Table::rename sig=const~unsigned~long
each rename($0, (to_number($1, 6) ++ ".dat"))
never throw …
exit {did rename($0, (to_number($1, 6) ++ ".dat"))}
at rename($0, (to_number($1, 6) ++ ".dat"))
fn mmx::Table::rename sig=string
each $0.name = $1
each rename($0.file, ((@root_path ++ 47) ++ $0.name))
each open($0.file, "rb")
each lock_exclusive($0.file)
never throw …
exit {did $0.name = $1}
exit {did lock_exclusive($0.file)}
exit {did open($0.file, "rb")}
exit {did rename($0.file, ((@root_path ++ 47) ++ $0.name))}
at $0.name = $1
at rename($0.file, ((@root_path ++ 47) ++ $0.name))
at open($0.file, "rb")
at lock_exclusive($0.file)
fn mmx::read_key
each read($0, $1, 0, 0)
each read(out(read‥, $1, 0, 0), 0, 0, 0)
each read(out(read‥, 0, 0, 0), new(db_val_t, out(read‥, out(read‥, $1, 0, 0), 0, 0)).data, new(db_val_t, out(read‥, out(read‥, $1, 0, 0), 0, 0)).size)
never throw …
exit {did read($0, $1, 0, 0)}
exit {did read(out(read‥, $1, 0, 0), 0, 0, 0)}
exit {did read(out(read‥, 0, 0, 0), new(db_val_t, out(read‥, out(read‥, $1, 0, 0), 0, 0)).data, new(db_val_t, out(read‥, out(read‥, $1, 0, 0), 0, 0)).size)}
exit {out $0 = out(read‥, 0, 0, 0)}
exit {out $1 = out(read‥, $0, 0, 0)}
exit {out $2 = new(db_val_t, out(read‥, out(read‥, $1, 0, 0), 0, 0))}
at read($0, $1, 0, 0)
at read(out(read‥, $1, 0, 0), 0, 0, 0)
at read(out(read‥, 0, 0, 0), new(db_val_t, out(read‥, out(read‥, $1, 0, 0), 0, 0)).data, new(db_val_t, out(read‥, out(read‥, $1, 0, 0), 0, 0)).size)
fn mmx::read_key_at
each read_key(%TypeInput, $2, $3)
never throw …
at ctor:FileSectionInputStream(get_handle($0), $1, -1, 256)
exit {did read_key(%TypeInput, $2, $3)}
exit {out $2 = out(read_key‥, %TypeInput, $3)}
exit {out $3 = out(read_key‥, %TypeInput, $2)}
at read_key(%TypeInput, $2, $3)
fn mmx::read_value
each read($0, 0, 0, 0)
each read(out(read‥, 0, 0, 0), new(db_val_t, out(read‥, $0, 0, 0)).data, new(db_val_t, out(read‥, $0, 0, 0)).size)
never throw …
exit {did read($0, 0, 0, 0)}
exit {did read(out(read‥, 0, 0, 0), new(db_val_t, out(read‥, $0, 0, 0)).data, new(db_val_t, out(read‥, $0, 0, 0)).size)}
exit {out $0 = out(read‥, 0, 0, 0)}
exit {out $1 = new(db_val_t, out(read‥, $0, 0, 0))}
at read($0, 0, 0, 0)
at read(out(read‥, 0, 0, 0), new(db_val_t, out(read‥, $0, 0, 0)).data, new(db_val_t, out(read‥, $0, 0, 0)).size)
fn mmx::read_value_at
each read_value(%TypeInput, $3)
never throw …
at ctor:FileSectionInputStream(get_handle($0), ($1 + $2.size + 8), -1, 1024)
exit {did read_value(%TypeInput, $3)}
exit {out $3 = out(read_value‥, %TypeInput)}
at read_value(%TypeInput, $3)
fn mmx::read_entry
each read_key($0, $1, $2)
each read_value(out(read_key‥, $1, $2), $3)
never throw …
exit {did read_key($0, $1, $2)}
exit {did read_value(out(read_key‥, $1, $2), $3)}
exit {out $0 = out(read_value‥, $3)}
exit {out $1 = out(read_key‥, $0, $2)}
exit {out $2 = out(read_key‥, $0, $1)}
exit {out $3 = out(read_value‥, out(read_key‥, $1, $2))}
at read_key($0, $1, $2)
at read_value(out(read_key‥, $1, $2), $3)
fn mmx::read_entry_sum
each read_entry($0, $1, $2, $3)
each read(out(read_entry‥, $1, $2, $3), 0, 0, 0)
raise !{calc_checksum_32(out(read_entry#v, $0, $2, $3), out(read_entry#v, $0, $1, $3), out(read_entry#v, $0, $1, $2)) == out(read#v, out(read_entry#v, $1, $2, $3), 0, 0)}
exit {calc_checksum_32(out(read_entry‥, $0, $2, $3), out(read_entry‥, $0, $1, $3), out(read_entry‥, $0, $1, $2)) == out(read‥, out(read_entry‥, $1, $2, $3), 0, 0)}
exit {did read(out(read_entry‥, $1, $2, $3), 0, 0, 0)}
exit {did read_entry($0, $1, $2, $3)}
exit {out $0 = out(read‥, 0, 0, 0)}
exit {out $1 = out(read_entry‥, $0, $2, $3)}
exit {out $2 = out(read_entry‥, $0, $1, $3)}
exit {out $3 = out(read_entry‥, $0, $1, $2)}
at read_entry($0, $1, $2, $3)
at read(out(read_entry‥, $1, $2, $3), 0, 0, 0)
fn mmx::read_entry_at
each read_key(%TypeInput, $2, $3)
each read_value(%TypeInput, $4)
never throw …
at ctor:FileSectionInputStream(get_handle($0), $1, -1, 1024)
exit {did read_key(%TypeInput, $2, $3)}
exit {did read_value(%TypeInput, $4)}
exit {out $2 = out(read_key‥, %TypeInput, $3)}
exit {out $3 = out(read_key‥, %TypeInput, $2)}
exit {out $4 = out(read_value‥, %TypeInput)}
at read_key(%TypeInput, $2, $3)
at read_value(%TypeInput, $4)
fn mmx::write_entry
each write($0, $1, 0, 0)
each write(out(write‥, $1, 0, 0), $2.size, 0, 0)
each write(out(write‥, $2.size, 0, 0), $2.data, $2.size)
each write(out(write‥, $2.size, 0, 0), $3.size, 0, 0)
each write(out(write‥, $3.size, 0, 0), $3.data, $3.size)
never throw …
exit {did write($0, $1, 0, 0)}
exit {did write(out(write‥, $1, 0, 0), $2.size, 0, 0)}
exit {did write(out(write‥, $2.size, 0, 0), $2.data, $2.size)}
exit {did write(out(write‥, $2.size, 0, 0), $3.size, 0, 0)}
exit {did write(out(write‥, $3.size, 0, 0), $3.data, $3.size)}
exit {out $0 = out(write‥, $3.size, 0, 0)}
at write($0, $1, 0, 0)
at write(out(write‥, $1, 0, 0), $2.size, 0, 0)
at write(out(write‥, $2.size, 0, 0), $2.data, $2.size)
at write(out(write‥, $2.size, 0, 0), $3.size, 0, 0)
at write(out(write‥, $3.size, 0, 0), $3.data, $3.size)
fn mmx::write_entry_sum
each write_entry($0, $1, $2, $3)
each write(out(write_entry‥, $1, $2, $3), calc_checksum_32($1, $2, $3), 0, 0)
never throw …
exit {did write(out(write_entry‥, $1, $2, $3), calc_checksum_32($1, $2, $3), 0, 0)}
exit {did write_entry($0, $1, $2, $3)}
exit {out $0 = out(write‥, calc_checksum_32($1, $2, $3), 0, 0)}
at write_entry($0, $1, $2, $3)
at write(out(write_entry‥, $1, $2, $3), calc_checksum_32($1, $2, $3), 0, 0)
fn mmx::calc_checksum_32
each update(%CRC64, $0)
each update(%CRC64, $1.data, $1.size)
each update(%CRC64, $2.data, $2.size)
never throw …
exit {did update(%CRC64, $0)}
exit {did update(%CRC64, $1.data, $1.size)}
exit {did update(%CRC64, $2.data, $2.size)}
exit {ret = u32(get(%CRC64))}
at update(%CRC64, $0)
at update(%CRC64, $1.data, $1.size)
at update(%CRC64, $2.data, $2.size)
fn mmx::DataBase::add
each push_back(@tables, $0)
never throw …
exit {did push_back(@tables, $0)}
at lock_guard(@mutex)
at push_back(@tables, $0)
fn mmx::DataBase::commit
each commit(elem(@tables), $0, false)
each add_task(@threads, lambda) ;; {commit(elem(@tables), $0, false)}
each sync(@threads)
never break(@tables)
never throw …
exit {did commit(elem(@tables), $0, false)}
exit {did sync(@threads)}
exit !{commit(elem(@tables), $0, false)} | {did add_task(@threads, lambda)}
exit !{commit(elem(@tables), $0, false)} | {did flush(elem(@tables))}
at lock_guard(@mutex)
at commit(elem(@tables), $0, false)
at add_task(@threads, lambda) ;; {commit(elem(@tables), $0, false)}
at flush(elem(@tables)) ;; {commit(elem(@tables), $0, false)}
at sync(@threads)
fn mmx::DataBase::revert
never break(@tables)
each add_task(@threads, lambda)
each revert(elem(@tables), $0)
each sync(@threads)
never throw …
exit {did revert(elem(@tables), $0)}
exit {did sync(@threads)}
exit {did add_task(@threads, lambda)} | {empty(@tables)}
at lock_guard(@mutex)
at add_task(@threads, lambda)
at revert(elem(@tables), $0)
at sync(@threads)
fn mmx::DataBase::version
never throw …
exit !{empty(@tables)} | {ret = 0}
exit {empty(@tables)} | {ret = current_version(at(@tables, 0))}
at lock_guard(@mutex)
fn mmx::DataBase::min_version
never break(@tables)
never throw …
value fold(4294967295, min(current_version(elem(@tables)), ~), @tables)
exit !{empty(@tables)} | {ret = 0}
exit {empty(@tables)} | {ret = fold(4294967295, min(current_version(elem(@tables)), ~), @tables)}
at lock_guard(@mutex)
fn mmx::DataBase::recover
each revert(min_version())
never throw …
exit {did revert(min_version())}
exit {ret = min_version()}
at revert(min_version())
fn mmx::Table::commit
at flush(@write_log) ;; {did write_entry_sum(@write_log.out, 4294967295, new(db_val_t, c_str("commit"), size("commit")), new(db_val_t, $0, 4))}
at @curr_version = $0 ;; {did flush(@write_log)} ;; {did write_entry_sum(@write_log.out, 4294967295, new(db_val_t, c_str("commit"), size("commit")), new(db_val_t, $0, 4))}
at flush() ;; {did flush(@write_log)} ;; {did @curr_version = $0}
exit {did flush(@write_log)}
fn mmx::Table::revert
at remove(‥.file) ;; {did flush(@write_log)} ;; {did write_entry_sum(@write_log.out, 4294967295, new(db_val_t, c_str("revert"), size("revert")), new(db_val_t, $0, 4))} ;; !{@write_lock} ;; !{@curr_version < $0}
at flush(@write_log) ;; {did write_entry_sum(@write_log.out, 4294967295, new(db_val_t, c_str("revert"), size("revert")), new(db_val_t, $0, 4))}
at write_entry_sum(@write_log.out, 4294967295, new(db_val_t, c_str("revert"), size("revert")), new(db_val_t, $0, 4)) ;; !{@write_lock} ;; !{@curr_version < $0}
at erase(@blocks, …) ;; {did flush(@write_log)}
at erase(@mem_block, …) ;; {did flush(@write_log)}
at rename(create_block(…), …) ;; {did flush(@write_log)} ;; {did finish_block(…)}
exit {did flush(@write_log)}
fn mmx::Table::flush
at clear(@mem_block) ;; {did rename(create_block(0, "flush.tmp"), @next_block_id)}
at rename(create_block(0, "flush.tmp"), @next_block_id) ;; {did finish_block(create_block(0, "flush.tmp"))}
at write_entry_sum(@write_log.out, 4294967295, new(db_val_t, c_str("reset"), size("reset")), new(db_val_t, @curr_version, 4)) ;; {did open(@write_log, "wb")}
at open(@write_log, "wb") ;; {did rename(create_block(0, "flush.tmp"), @next_block_id)} | {empty(@mem_block)}
at flush(@write_log) ;; {did write_entry_sum(@write_log.out, 4294967295, new(db_val_t, c_str("reset"), size("reset")), new(db_val_t, @curr_version, 4))}
exit {did flush(@write_log)}
fn mmx::Table::check_rewrite
at remove(elem(%list<shared_ptr<Table::block_t>>).file) ;; {did rename(rewrite(…), @next_block_id)}
fn mmx::Table::finish_block
at write_block_header($0.file.out, $0) ;; {did seek_begin($0.file)}
at seek_to($0.file, $0.index_offset) ;; {did write_block_header($0.file.out, $0)}
at write_block_index($0.file.out, $0) ;; {did seek_to($0.file, $0.index_offset)}
at close($0.file) ;; {did write_block_index($0.file.out, $0)}
fn mmx::Table::rename sig=string
at open($0.file, …) ;; {did rename($0.file, ((@root_path ++ 47) ++ $0.name))}
at lock_exclusive($0.file) ;; {did open($0.file, "rb")}
fn mmx::Table::Table file=src/DataBase.cpp
at erase(…, lower_bound(…, to(out(read_entry_sum‥, @write_log.in, undef, 0))), …) ;; {"revert" == …}
fn mmx::Table::revert
at ….index_offset = get_output_pos(…)
