tus src/vm/StorageProxy.cpp src/vm/StorageCache.cpp src/vm/StorageRAM.cpp src/vm/StorageDB.cpp
fn mmx::vm::Storage::get_balance
exit {never returns}
fn mmx::vm::Storage::lookup
never throw …
exit !{$1} | {ret = lookup($0, $1)}
exit {$1} | {ret = 0}
fn mmx::vm::Storage::set_balance
exit {never returns}
fn mmx::vm::Storage::write sig=(const~mmx::addr_t~&,~const~unsigned~long,~const~mmx::vm::varptr_t~&)
each write($0, $1, $2) ;; {$2}
never throw …
exit !{$2} | {did write($0, $1, $2)}
at write($0, $1, $2) ;; {$2}
fn mmx::vm::Storage::write sig=(const~mmx::addr_t~&,~const~unsigned~long,~const~unsigned~long,~const~mmx::vm::varptr_t~&)
each write($0, $1, $2, $3) ;; {$3}
never throw …
exit !{$3} | {did write($0, $1, $2, $3)}
at write($0, $1, $2, $3) ;; {$3}
fn mmx::vm::StorageCache::StorageCache
never throw …
exit {did @backend := $0}
at @backend := $0
fn mmx::vm::StorageCache::commit
each write(@backend, elem(@memory).first.first, elem(@memory).first.second, elem(@memory).second) ;; {elem(@memory).second}
each write(@backend, get0(elem(@entries).first), get1(elem(@entries).first), get2(elem(@entries).first), elem(@entries).second) ;; {elem(@entries).second}
each set_balance(@backend, elem(@balance_map).first, elem(elem(@balance_map).second).first, elem(elem(@balance_map).second).second)
never break(@memory)
never break(@entries)
never break(elem(@balance_map).second)
never break(@balance_map)
never throw …
exit {did set_balance(@backend, elem(@balance_map).first, elem(elem(@balance_map).second).first, elem(elem(@balance_map).second).second)}
exit !{elem(@entries).second} | {did write(@backend, get0(elem(@entries).first), get1(elem(@entries).first), get2(elem(@entries).first), elem(@entries).second)}
exit !{elem(@memory).second} | {did write(@backend, elem(@memory).first.first, elem(@memory).first.second, elem(@memory).second)}
at write(@backend, elem(@memory).first.first, elem(@memory).first.second, elem(@memory).second) ;; {elem(@memory).second}
at write(@backend, get0(elem(@entries).first), get1(elem(@entries).first), get2(elem(@entries).first), elem(@entries).second) ;; {elem(@entries).second}
at set_balance(@backend, elem(@balance_map).first, elem(elem(@balance_map).second).first, elem(elem(@balance_map).second).second)
fn mmx::vm::StorageCache::get_balance
each get_balance($0, $1)
each get_balance(@backend, $0, $1) ;; !{get_balance($0, $1)}
each set_balance($0, $1, get_balance(@backend, $0, $1)) ;; !{get_balance($0, $1)} ;; {get_balance(@backend, $0, $1)}
never throw …
exit {did get_balance($0, $1)}
exit !{get_balance($0, $1)} | {ret = get_balance($0, $1)}
exit {get_balance($0, $1)} | {ret = get_balance(@backend, $0, $1)}
exit {did get_balance(@backend, $0, $1)} | {get_balance($0, $1)}
exit !{get_balance(@backend, $0, $1)} | {did set_balance($0, $1, get_balance(@backend, $0, $1))} | {get_balance($0, $1)}
at get_balance($0, $1)
at get_balance(@backend, $0, $1) ;; !{get_balance($0, $1)}
at set_balance($0, $1, get_balance(@backend, $0, $1)) ;; !{get_balance($0, $1)} ;; {get_balance(@backend, $0, $1)}
fn mmx::vm::StorageCache::lookup
never throw …
exit !{lookup($0, $1)} | {ret = lookup($0, $1)}
exit {lookup($0, $1)} | {ret = lookup(@backend, $0, $1)}
fn mmx::vm::StorageCache::read sig=(const~mmx::addr_t~&,~const~unsigned~long)~const
never throw …
exit !{read($0, $1)} | {ret = read($0, $1)}
exit {read($0, $1)} | {ret = read(@backend, $0, $1)}
fn mmx::vm::StorageCache::read sig=(const~mmx::addr_t~&,~const~unsigned~long,~const~unsigned~long)~const
never throw …
exit !{read($0, $1, $2)} | {ret = read($0, $1, $2)}
exit {read($0, $1, $2)} | {ret = read(@backend, $0, $1, $2)}
fn mmx::vm::StorageDB::StorageDB
each @table = new(Table, ($0 ++ "storage"))
each @table_entries = new(Table, ($0 ++ "storage_entries"))
each @table_index = new(Table, ($0 ++ "storage_index"))
each add($1, new(Table, ($0 ++ "storage")))
each add($1, new(Table, ($0 ++ "storage_entries")))
each add($1, new(Table, ($0 ++ "storage_index")))
never throw …
exit {did @table = new(Table, ($0 ++ "storage"))}
exit {did @table_entries = new(Table, ($0 ++ "storage_entries"))}
exit {did @table_index = new(Table, ($0 ++ "storage_index"))}
exit {did add($1, new(Table, ($0 ++ "storage")))}
exit {did add($1, new(Table, ($0 ++ "storage_entries")))}
exit {did add($1, new(Table, ($0 ++ "storage_index")))}
at @table = new(Table, ($0 ++ "storage"))
at @table_entries = new(Table, ($0 ++ "storage_entries"))
at @table_index = new(Table, ($0 ++ "storage_index"))
at add($1, new(Table, ($0 ++ "storage")))
at add($1, new(Table, ($0 ++ "storage_entries")))
at add($1, new(Table, ($0 ++ "storage_index")))
fn mmx::vm::StorageDB::find_entries
each seek(%Table::Iterator, write_entry_key($0, $1, 0))
each push_back(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>, key(%Table::Iterator), get2(read_entry_key(key(%Table::Iterator)))) ;; {is_valid(%Table::Iterator)} ;; !{memcmp(data(get0(read_entry_key(key(%Table::Iterator)))), data($0), HASH_KEY_SIZE)} ;; {$1 == get1(read_entry_key(key(%Table::Iterator)))}
each next(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; !{memcmp(data(get0(read_entry_key(key(%Table::Iterator)))), data($0), HASH_KEY_SIZE)} ;; {$1 == get1(read_entry_key(key(%Table::Iterator)))}
each deserialize(0, find(@table_entries, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $2).data, find(@table_entries, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $2).size, false, true) ;; {has(@table_entries, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first)}
each push_back(%vector<pair<unsignedlong,vm::varptr_t>>, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).second, out(deserialize‥, find(@table_entries, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $2).data, find(@table_entries, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $2).size, false, true)) ;; {has(@table_entries, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first)}
never break(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>)
never throw …
at ctor:Table::Iterator(@table_entries)
exit {did seek(%Table::Iterator, write_entry_key($0, $1, 0))}
exit {ret = %vector<pair<unsignedlong,vm::varptr_t>>}
exit !{has(@table_entries, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first)} | {did deserialize(0, find(@table_entries, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $2).data, find(@table_entries, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $2).size, false, true)}
exit !{has(@table_entries, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first)} | {did push_back(%vector<pair<unsignedlong,vm::varptr_t>>, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).second, out(deserialize‥, find(@table_entries, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $2).data, find(@table_entries, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $2).size, false, true))}
exit !{$1 == get1(read_entry_key(key(%Table::Iterator)))} | !{is_valid(%Table::Iterator)} | {memcmp(data(get0(read_entry_key(key(%Table::Iterator)))), data($0), HASH_KEY_SIZE)}
exit !{is_valid(%Table::Iterator)} | !{memcmp(data(get0(read_entry_key(key(%Table::Iterator)))), data($0), HASH_KEY_SIZE)} | {did break(loop)}
exit !{is_valid(%Table::Iterator)} | {$1 == get1(read_entry_key(key(%Table::Iterator)))} | {did break(loop)}
at seek(%Table::Iterator, write_entry_key($0, $1, 0))
never break(loop) ;; {is_valid(%Table::Iterator)} ;; !{$1 == get1(read_entry_key(key(%Table::Iterator)))} | {memcmp(data(get0(read_entry_key(key(%Table::Iterator)))), data($0), HASH_KEY_SIZE)}
at push_back(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>, key(%Table::Iterator), get2(read_entry_key(key(%Table::Iterator)))) ;; {is_valid(%Table::Iterator)} ;; !{memcmp(data(get0(read_entry_key(key(%Table::Iterator)))), data($0), HASH_KEY_SIZE)} ;; {$1 == get1(read_entry_key(key(%Table::Iterator)))}
at next(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; !{memcmp(data(get0(read_entry_key(key(%Table::Iterator)))), data($0), HASH_KEY_SIZE)} ;; {$1 == get1(read_entry_key(key(%Table::Iterator)))}
at deserialize(0, find(@table_entries, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $2).data, find(@table_entries, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $2).size, false, true) ;; {has(@table_entries, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first)}
at push_back(%vector<pair<unsignedlong,vm::varptr_t>>, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).second, out(deserialize‥, find(@table_entries, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $2).data, find(@table_entries, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $2).size, false, true)) ;; {has(@table_entries, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first)}
fn mmx::vm::StorageDB::find_range
never break(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>)
each seek(%Table::Iterator, get_key($0, $1))
each push_back(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>, key(%Table::Iterator), get1(read_key(key(%Table::Iterator)))) ;; {is_valid(%Table::Iterator)} ;; !{memcmp(data(get0(read_key(key(%Table::Iterator)))), data($0), HASH_KEY_SIZE)} ;; {get1(read_key(key(%Table::Iterator))) < $2}
each next(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; !{memcmp(data(get0(read_key(key(%Table::Iterator)))), data($0), HASH_KEY_SIZE)} ;; {get1(read_key(key(%Table::Iterator))) < $2}
each deserialize(0, find(@table, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $3).data, find(@table, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $3).size, false, true) ;; {has(@table, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first)}
each push_back(%vector<pair<unsignedlong,vm::varptr_t>>, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).second, out(deserialize‥, find(@table, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $3).data, find(@table, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $3).size, false, true)) ;; {has(@table, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first)}
never throw …
at ctor:Table::Iterator(@table)
exit {did seek(%Table::Iterator, get_key($0, $1))}
exit {ret = %vector<pair<unsignedlong,vm::varptr_t>>}
exit !{has(@table, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first)} | {did deserialize(0, find(@table, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $3).data, find(@table, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $3).size, false, true)}
exit !{has(@table, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first)} | {did push_back(%vector<pair<unsignedlong,vm::varptr_t>>, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).second, out(deserialize‥, find(@table, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $3).data, find(@table, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $3).size, false, true))}
exit !{get1(read_key(key(%Table::Iterator))) < $2} | !{is_valid(%Table::Iterator)} | {memcmp(data(get0(read_key(key(%Table::Iterator)))), data($0), HASH_KEY_SIZE)}
exit !{is_valid(%Table::Iterator)} | !{memcmp(data(get0(read_key(key(%Table::Iterator)))), data($0), HASH_KEY_SIZE)} | {did break(loop)}
exit !{is_valid(%Table::Iterator)} | {did break(loop)} | {get1(read_key(key(%Table::Iterator))) < $2}
at seek(%Table::Iterator, get_key($0, $1))
never break(loop) ;; {is_valid(%Table::Iterator)} ;; !{get1(read_key(key(%Table::Iterator))) < $2} | {memcmp(data(get0(read_key(key(%Table::Iterator)))), data($0), HASH_KEY_SIZE)}
at push_back(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>, key(%Table::Iterator), get1(read_key(key(%Table::Iterator)))) ;; {is_valid(%Table::Iterator)} ;; !{memcmp(data(get0(read_key(key(%Table::Iterator)))), data($0), HASH_KEY_SIZE)} ;; {get1(read_key(key(%Table::Iterator))) < $2}
at next(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; !{memcmp(data(get0(read_key(key(%Table::Iterator)))), data($0), HASH_KEY_SIZE)} ;; {get1(read_key(key(%Table::Iterator))) < $2}
at deserialize(0, find(@table, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $3).data, find(@table, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $3).size, false, true) ;; {has(@table, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first)}
at push_back(%vector<pair<unsignedlong,vm::varptr_t>>, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).second, out(deserialize‥, find(@table, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $3).data, find(@table, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first, $3).size, false, true)) ;; {has(@table, elem(%vector<pair<shared_ptr<db_val_t>,unsignedlong>>).first)}
fn mmx::vm::StorageDB::get_balance
each @read_balance($0, $1) ;; {@read_balance}
never throw …
exit !{@read_balance} | {ret = apply(@read_balance, $0, $1)}
exit {@read_balance} | {ret = 0}
exit !{@read_balance} | {did @read_balance($0, $1)}
at @read_balance($0, $1) ;; {@read_balance}
fn mmx::vm::StorageDB::lookup
each memcpy(&, find(@table_index, write_index_key($0, $1), 4294967295).data, 8) ;; {has(@table_index, write_index_key($0, $1))} ;; {7 < find(@table_index, write_index_key($0, $1), 4294967295).size}
raise {has(@table_index, write_index_key($0, $1))} ;; !{7 < find(@table_index, write_index_key($0, $1), 4294967295).size}
exit !{has(@table_index, write_index_key($0, $1))} | {ret = out(memcpy‥, find(@table_index, write_index_key($0, $1), 4294967295).data, 8)}
exit {has(@table_index, write_index_key($0, $1))} | {ret = 0}
exit !{has(@table_index, write_index_key($0, $1))} | {7 < find(@table_index, write_index_key($0, $1), 4294967295).size}
exit !{has(@table_index, write_index_key($0, $1))} | {did memcpy(&, find(@table_index, write_index_key($0, $1), 4294967295).data, 8)}
at memcpy(&, find(@table_index, write_index_key($0, $1), 4294967295).data, 8) ;; {has(@table_index, write_index_key($0, $1))} ;; {7 < find(@table_index, write_index_key($0, $1), 4294967295).size}
fn mmx::vm::StorageDB::read sig=(const~mmx::addr_t~&,~const~unsigned~long)~const
never throw …
exit {ret = read_ex($0, $1, 4294967295)}
fn mmx::vm::StorageDB::read sig=(const~mmx::addr_t~&,~const~unsigned~long,~const~unsigned~long)~const
never throw …
exit {ret = read_ex($0, $1, $2, 4294967295)}
fn mmx::vm::StorageDB::read_array
each push_back(%vector<vm::varptr_t>, elem(find_entries($0, $1, $2)).second)
never break(find_entries($0, $1, $2))
never throw …
exit {did push_back(%vector<vm::varptr_t>, elem(find_entries($0, $1, $2)).second)}
exit {ret = %vector<vm::varptr_t>}
at push_back(%vector<vm::varptr_t>, elem(find_entries($0, $1, $2)).second)
fn mmx::vm::StorageDB::read_ex sig=(const~mmx::addr_t~&,~const~unsigned~long,~const~unsigned~int)~const
each deserialize(0, find(@table, get_key($0, $1), $2).data, find(@table, get_key($0, $1), $2).size, false, true) ;; {has(@table, get_key($0, $1))}
never throw …
exit !{has(@table, get_key($0, $1))} | {ret = out(deserialize‥, find(@table, get_key($0, $1), $2).data, find(@table, get_key($0, $1), $2).size, false, true)}
exit {has(@table, get_key($0, $1))} | {ret = 0}
exit !{has(@table, get_key($0, $1))} | {did deserialize(0, find(@table, get_key($0, $1), $2).data, find(@table, get_key($0, $1), $2).size, false, true)}
at deserialize(0, find(@table, get_key($0, $1), $2).data, find(@table, get_key($0, $1), $2).size, false, true) ;; {has(@table, get_key($0, $1))}
fn mmx::vm::StorageDB::read_ex sig=(const~mmx::addr_t~&,~const~unsigned~long,~const~unsigned~long,~const~unsigned~int)~const
each deserialize(0, find(@table_entries, write_entry_key($0, $1, $2), $3).data, find(@table_entries, write_entry_key($0, $1, $2), $3).size, false, true) ;; {has(@table_entries, write_entry_key($0, $1, $2))}
never throw …
exit !{has(@table_entries, write_entry_key($0, $1, $2))} | {ret = out(deserialize‥, find(@table_entries, write_entry_key($0, $1, $2), $3).data, find(@table_entries, write_entry_key($0, $1, $2), $3).size, false, true)}
exit {has(@table_entries, write_entry_key($0, $1, $2))} | {ret = 0}
exit !{has(@table_entries, write_entry_key($0, $1, $2))} | {did deserialize(0, find(@table_entries, write_entry_key($0, $1, $2), $3).data, find(@table_entries, write_entry_key($0, $1, $2), $3).size, false, true)}
at deserialize(0, find(@table_entries, write_entry_key($0, $1, $2), $3).data, find(@table_entries, write_entry_key($0, $1, $2), $3).size, false, true) ;; {has(@table_entries, write_entry_key($0, $1, $2))}
fn mmx::vm::StorageDB::set_balance
each @write_balance($0, $1, $2) ;; {@write_balance}
never throw …
exit !{@write_balance} | {did @write_balance($0, $1, $2)}
at @write_balance($0, $1, $2) ;; {@write_balance}
fn mmx::vm::StorageDB::write sig=(const~mmx::addr_t~&,~const~unsigned~long,~const~mmx::vm::var_t~&)
each insert(@table_index, write_index_key($0, $2), new(db_val_t, $1, 8)) ;; {($2.flags & FLAG_KEY)}
each release(serialize($2, false, true).first)
each insert(@table, get_key($0, $1), new(db_val_t, release(serialize($2, false, true).first), serialize($2, false, true).second, false))
never throw …
exit {did insert(@table, get_key($0, $1), new(db_val_t, release(serialize($2, false, true).first), serialize($2, false, true).second, false))}
exit {did release(serialize($2, false, true).first)}
exit !{($2.flags & FLAG_KEY)} | {did insert(@table_index, write_index_key($0, $2), new(db_val_t, $1, 8))}
at insert(@table_index, write_index_key($0, $2), new(db_val_t, $1, 8)) ;; {($2.flags & FLAG_KEY)}
at release(serialize($2, false, true).first)
at insert(@table, get_key($0, $1), new(db_val_t, release(serialize($2, false, true).first), serialize($2, false, true).second, false))
fn mmx::vm::StorageDB::write sig=(const~mmx::addr_t~&,~const~unsigned~long,~const~unsigned~long,~const~mmx::vm::var_t~&)
each release(serialize($3, false, true).first)
each insert(@table_entries, write_entry_key($0, $1, $2), new(db_val_t, release(serialize($3, false, true).first), serialize($3, false, true).second, false))
never throw …
exit {did insert(@table_entries, write_entry_key($0, $1, $2), new(db_val_t, release(serialize($3, false, true).first), serialize($3, false, true).second, false))}
exit {did release(serialize($3, false, true).first)}
at release(serialize($3, false, true).first)
at insert(@table_entries, write_entry_key($0, $1, $2), new(db_val_t, release(serialize($3, false, true).first), serialize($3, false, true).second, false))
fn mmx::vm::StorageProxy::StorageProxy
never throw …
exit {did @backend := $1}
exit {did @engine := $0}
exit {did @read_only := $2}
at @engine := $0
at @backend := $1
at @read_only := $2
fn mmx::vm::StorageProxy::get_balance
each %vm::StorageProxy::trace_t.type = "GET_BALANCE" ;; {@engine.do_trace}
each %vm::StorageProxy::trace_t.contract = $0 ;; {@engine.do_trace}
each %vm::StorageProxy::trace_t.value = ctor(vm::varptr_t, to_binary($1)) ;; {@engine.do_trace}
each push_back(@trace, %vm::StorageProxy::trace_t) ;; {@engine.do_trace}
each at(@engine.cost_map, "STOR_READ_COST") = (at(@engine.cost_map, "STOR_READ_COST") + 1) ;; {@engine.do_profile}
each @engine.gas_used = (@engine.gas_used + STOR_READ_COST)
each check_gas(@engine)
each get_balance(@backend, $0, $1)
never throw …
exit {did @engine.gas_used = (@engine.gas_used + STOR_READ_COST)}
exit {did check_gas(@engine)}
exit {did get_balance(@backend, $0, $1)}
exit {ret = get_balance(@backend, $0, $1)}
at @engine.gas_used = (@engine.gas_used + STOR_READ_COST)
at check_gas(@engine)
at get_balance(@backend, $0, $1)
fn mmx::vm::StorageProxy::lookup
each %vm::StorageProxy::trace_t.type = "LOOKUP" ;; {@engine.do_trace}
each %vm::StorageProxy::trace_t.contract = $0 ;; {@engine.do_trace}
each %vm::StorageProxy::trace_t.value = ctor(vm::varptr_t, clone($1)) ;; {@engine.do_trace}
each push_back(@trace, %vm::StorageProxy::trace_t) ;; {@engine.do_trace}
each at(@engine.cost_map, "STOR_READ_COST") = (at(@engine.cost_map, "STOR_READ_COST") + 1) ;; {@engine.do_profile}
each at(@engine.cost_map, "STOR_READ_32_BYTE_COST") = u32(((num_bytes($1) / 32) + at(@engine.cost_map, "STOR_READ_32_BYTE_COST"))) ;; {@engine.do_profile}
each @engine.gas_used = (((num_bytes($1) / 32) * STOR_READ_32_BYTE_COST) + @engine.gas_used + STOR_READ_COST)
each check_gas(@engine)
never throw …
exit {did @engine.gas_used = (((num_bytes($1) / 32) * STOR_READ_32_BYTE_COST) + @engine.gas_used + STOR_READ_COST)}
exit {did check_gas(@engine)}
exit {ret = lookup(@backend, $0, $1)}
at @engine.gas_used = (((num_bytes($1) / 32) * STOR_READ_32_BYTE_COST) + @engine.gas_used + STOR_READ_COST)
at check_gas(@engine)
fn mmx::vm::StorageProxy::read sig=(const~mmx::addr_t~&,~const~unsigned~long)~const
each at(@engine.cost_map, "STOR_READ_COST") = (at(@engine.cost_map, "STOR_READ_COST") + 1) ;; {@engine.do_profile}
each at(@engine.cost_map, "STOR_READ_32_BYTE_COST") = u32(((num_bytes(read_ex(read(@backend, $0, $1))) / 32) + at(@engine.cost_map, "STOR_READ_32_BYTE_COST"))) ;; {@engine.do_profile}
each @engine.gas_used = (((num_bytes(read_ex(read(@backend, $0, $1))) / 32) * STOR_READ_32_BYTE_COST) + @engine.gas_used + STOR_READ_COST)
each check_gas(@engine)
each %vm::StorageProxy::trace_t.type = "READ" ;; {@engine.do_trace}
each %vm::StorageProxy::trace_t.contract = $0 ;; {@engine.do_trace}
each %vm::StorageProxy::trace_t.addr = $1 ;; {@engine.do_trace}
each %vm::StorageProxy::trace_t.value = ctor(vm::varptr_t, clone(read_ex(read(@backend, $0, $1)))) ;; {@engine.do_trace}
each push_back(@trace, %vm::StorageProxy::trace_t) ;; {@engine.do_trace}
never throw …
exit {did @engine.gas_used = (((num_bytes(read_ex(read(@backend, $0, $1))) / 32) * STOR_READ_32_BYTE_COST) + @engine.gas_used + STOR_READ_COST)}
exit {did check_gas(@engine)}
exit {ret = read_ex(read(@backend, $0, $1))}
at @engine.gas_used = (((num_bytes(read_ex(read(@backend, $0, $1))) / 32) * STOR_READ_32_BYTE_COST) + @engine.gas_used + STOR_READ_COST)
at check_gas(@engine)
fn mmx::vm::StorageProxy::read sig=(const~mmx::addr_t~&,~const~unsigned~long,~const~unsigned~long)~const
each at(@engine.cost_map, "STOR_READ_COST") = (at(@engine.cost_map, "STOR_READ_COST") + 1) ;; {@engine.do_profile}
each at(@engine.cost_map, "STOR_READ_32_BYTE_COST") = u32(((num_bytes(read_ex(read(@backend, $0, $1, $2))) / 32) + at(@engine.cost_map, "STOR_READ_32_BYTE_COST"))) ;; {@engine.do_profile}
each @engine.gas_used = (((num_bytes(read_ex(read(@backend, $0, $1, $2))) / 32) * STOR_READ_32_BYTE_COST) + @engine.gas_used + STOR_READ_COST)
each check_gas(@engine)
each %vm::StorageProxy::trace_t.type = "READ_KEY" ;; {@engine.do_trace}
each %vm::StorageProxy::trace_t.contract = $0 ;; {@engine.do_trace}
each %vm::StorageProxy::trace_t.addr = $1 ;; {@engine.do_trace}
each %vm::StorageProxy::trace_t.key = $2 ;; {@engine.do_trace}
each %vm::StorageProxy::trace_t.value = ctor(vm::varptr_t, clone(read_ex(read(@backend, $0, $1, $2)))) ;; {@engine.do_trace}
each push_back(@trace, %vm::StorageProxy::trace_t) ;; {@engine.do_trace}
never throw …
exit {did @engine.gas_used = (((num_bytes(read_ex(read(@backend, $0, $1, $2))) / 32) * STOR_READ_32_BYTE_COST) + @engine.gas_used + STOR_READ_COST)}
exit {did check_gas(@engine)}
exit {ret = read_ex(read(@backend, $0, $1, $2))}
at @engine.gas_used = (((num_bytes(read_ex(read(@backend, $0, $1, $2))) / 32) * STOR_READ_32_BYTE_COST) + @engine.gas_used + STOR_READ_COST)
at check_gas(@engine)
fn mmx::vm::StorageProxy::read_ex
each reset($0, ctor(vm::var_t*)) ;; {$0} ;; {($0.flags & FLAG_DELETED)}
each ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags = u8((ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags & ~(FLAG_DIRTY))) ;; !{($0.flags & FLAG_DELETED)} | {$0} ;; !{($0.flags & FLAG_DELETED)} | {ctor(vm::var_t*)} ;; {$0} ;; {$0} | {($0.flags & FLAG_DELETED)} ;; {$0} | {ctor(vm::var_t*)}
each ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags = u8((FLAG_STORED | ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags)) ;; !{($0.flags & FLAG_DELETED)} | {$0} ;; !{($0.flags & FLAG_DELETED)} | {ctor(vm::var_t*)} ;; {$0} ;; {$0} | {($0.flags & FLAG_DELETED)} ;; {$0} | {ctor(vm::var_t*)}
each ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags = u8((FLAG_CONST | ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags)) ;; !{($0.flags & FLAG_DELETED)} | {$0} ;; !{($0.flags & FLAG_DELETED)} | {ctor(vm::var_t*)} ;; {$0} ;; {$0} | {($0.flags & FLAG_DELETED)} ;; {$0} | {ctor(vm::var_t*)} ;; {@read_only}
never throw …
exit !{$0} | !{($0.flags & FLAG_DELETED)} | {ret = ctor(vm::var_t*)}
exit {$0} | {ret = $0}
exit {($0.flags & FLAG_DELETED)} | {ret = $0}
exit !{$0} | !{($0.flags & FLAG_DELETED)} | {did reset($0, ctor(vm::var_t*))}
exit !{$0} | {($0.flags & FLAG_DELETED)} | {did ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags = u8((FLAG_STORED | ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags))}
exit !{$0} | {($0.flags & FLAG_DELETED)} | {did ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags = u8((ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags & ~(FLAG_DIRTY)))}
exit !{$0} | !{($0.flags & FLAG_DELETED)} | !{ctor(vm::var_t*)} | {did ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags = u8((FLAG_STORED | ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags))}
exit !{$0} | !{($0.flags & FLAG_DELETED)} | !{ctor(vm::var_t*)} | {did ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags = u8((ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags & ~(FLAG_DIRTY)))}
exit !{$0} | !{@read_only} | {($0.flags & FLAG_DELETED)} | {did ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags = u8((FLAG_CONST | ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags))}
exit !{$0} | !{($0.flags & FLAG_DELETED)} | !{@read_only} | !{ctor(vm::var_t*)} | {did ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags = u8((FLAG_CONST | ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags))}
at reset($0, ctor(vm::var_t*)) ;; {$0} ;; {($0.flags & FLAG_DELETED)}
at ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags = u8((ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags & ~(FLAG_DIRTY))) ;; !{($0.flags & FLAG_DELETED)} | {$0} ;; !{($0.flags & FLAG_DELETED)} | {ctor(vm::var_t*)} ;; {$0} ;; {$0} | {($0.flags & FLAG_DELETED)} ;; {$0} | {ctor(vm::var_t*)}
at ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags = u8((FLAG_STORED | ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags)) ;; !{($0.flags & FLAG_DELETED)} | {$0} ;; !{($0.flags & FLAG_DELETED)} | {ctor(vm::var_t*)} ;; {$0} ;; {$0} | {($0.flags & FLAG_DELETED)} ;; {$0} | {ctor(vm::var_t*)}
at ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags = u8((FLAG_CONST | ite((!{$0} || !{($0.flags & FLAG_DELETED)}), $0, ctor(vm::var_t*)).flags)) ;; !{($0.flags & FLAG_DELETED)} | {$0} ;; !{($0.flags & FLAG_DELETED)} | {ctor(vm::var_t*)} ;; {$0} ;; {$0} | {($0.flags & FLAG_DELETED)} ;; {$0} | {ctor(vm::var_t*)} ;; {@read_only}
fn mmx::vm::StorageProxy::write sig=(const~mmx::addr_t~&,~const~unsigned~long,~const~mmx::vm::var_t~&)
each %vm::StorageProxy::trace_t.type = "WRITE" ;; !{@read_only} ;; {@engine.do_trace}
each %vm::StorageProxy::trace_t.contract = $0 ;; !{@read_only} ;; {@engine.do_trace}
each %vm::StorageProxy::trace_t.addr = $1 ;; !{@read_only} ;; {@engine.do_trace}
each %vm::StorageProxy::trace_t.value = ctor(vm::varptr_t, clone($2)) ;; !{@read_only} ;; {@engine.do_trace}
each push_back(@trace, %vm::StorageProxy::trace_t) ;; !{@read_only} ;; {@engine.do_trace}
each at(@engine.cost_map, "STOR_WRITE_COST") = (at(@engine.cost_map, "STOR_WRITE_COST") + ite({($2.flags & FLAG_KEY)}, 2, 1)) ;; !{@read_only} ;; !{($2.flags & FLAG_KEY)} | {($2.flags & FLAG_CONST)} ;; {@engine.do_profile}
each at(@engine.cost_map, "STOR_WRITE_BYTE_COST") = u32(((ite({($2.flags & FLAG_KEY)}, 2, 1) * num_bytes($2)) + at(@engine.cost_map, "STOR_WRITE_BYTE_COST"))) ;; !{@read_only} ;; !{($2.flags & FLAG_KEY)} | {($2.flags & FLAG_CONST)} ;; {@engine.do_profile}
each @engine.gas_used = ((((STOR_WRITE_BYTE_COST * num_bytes($2)) + STOR_WRITE_COST) * ite({($2.flags & FLAG_KEY)}, 2, 1)) + @engine.gas_used) ;; !{@read_only} ;; !{($2.flags & FLAG_KEY)} | {($2.flags & FLAG_CONST)}
each check_gas(@engine) ;; !{@read_only} ;; !{($2.flags & FLAG_KEY)} | {($2.flags & FLAG_CONST)}
each write(@backend, $0, $1, $2) ;; !{@read_only} ;; !{($2.flags & FLAG_KEY)} | {($2.flags & FLAG_CONST)}
raise {@read_only}
raise !{@read_only} ;; {$2.type == vm::TYPE_REF} ;; {$2.address < MEM_STATIC}
raise !{@read_only} ;; {($2.flags & FLAG_KEY)} ;; !{($2.flags & FLAG_CONST)}
exit !{@read_only}
exit {did @engine.gas_used = ((((STOR_WRITE_BYTE_COST * num_bytes($2)) + STOR_WRITE_COST) * ite({($2.flags & FLAG_KEY)}, 2, 1)) + @engine.gas_used)}
exit {did check_gas(@engine)}
exit {did write(@backend, $0, $1, $2)}
exit !{$2.address < MEM_STATIC} | !{$2.type == vm::TYPE_REF}
exit !{($2.flags & FLAG_KEY)} | {($2.flags & FLAG_CONST)}
at @engine.gas_used = ((((STOR_WRITE_BYTE_COST * num_bytes($2)) + STOR_WRITE_COST) * ite({($2.flags & FLAG_KEY)}, 2, 1)) + @engine.gas_used)
at check_gas(@engine)
at write(@backend, $0, $1, $2)
fn mmx::vm::StorageProxy::write sig=(const~mmx::addr_t~&,~const~unsigned~long,~const~unsigned~long,~const~mmx::vm::var_t~&)
each %vm::StorageProxy::trace_t.type = "WRITE_KEY" ;; !{@read_only} ;; {@engine.do_trace}
each %vm::StorageProxy::trace_t.contract = $0 ;; !{@read_only} ;; {@engine.do_trace}
each %vm::StorageProxy::trace_t.addr = $1 ;; !{@read_only} ;; {@engine.do_trace}
each %vm::StorageProxy::trace_t.key = $2 ;; !{@read_only} ;; {@engine.do_trace}
each %vm::StorageProxy::trace_t.value = ctor(vm::varptr_t, clone($3)) ;; !{@read_only} ;; {@engine.do_trace}
each push_back(@trace, %vm::StorageProxy::trace_t) ;; !{@read_only} ;; {@engine.do_trace}
each at(@engine.cost_map, "STOR_WRITE_COST") = (at(@engine.cost_map, "STOR_WRITE_COST") + 1) ;; !{@read_only} ;; !{$3.ref_count} ;; {@engine.do_profile}
each at(@engine.cost_map, "STOR_WRITE_BYTE_COST") = u32((at(@engine.cost_map, "STOR_WRITE_BYTE_COST") + num_bytes($3))) ;; !{@read_only} ;; !{$3.ref_count} ;; {@engine.do_profile}
each @engine.gas_used = ((STOR_WRITE_BYTE_COST * num_bytes($3)) + @engine.gas_used + STOR_WRITE_COST) ;; !{@read_only} ;; !{$3.ref_count}
each check_gas(@engine) ;; !{@read_only} ;; !{$3.ref_count}
each write(@backend, $0, $1, $2, $3) ;; !{@read_only} ;; !{$3.ref_count}
raise {@read_only}
raise !{@read_only} ;; {$3.type == vm::TYPE_REF} ;; {$3.address < MEM_STATIC}
raise !{@read_only} ;; {$3.ref_count}
exit !{$3.ref_count}
exit !{@read_only}
exit {did @engine.gas_used = ((STOR_WRITE_BYTE_COST * num_bytes($3)) + @engine.gas_used + STOR_WRITE_COST)}
exit {did check_gas(@engine)}
exit {did write(@backend, $0, $1, $2, $3)}
exit !{$3.address < MEM_STATIC} | !{$3.type == vm::TYPE_REF}
at @engine.gas_used = ((STOR_WRITE_BYTE_COST * num_bytes($3)) + @engine.gas_used + STOR_WRITE_COST)
at check_gas(@engine)
at write(@backend, $0, $1, $2, $3)
fn mmx::vm::StorageRAM::clear
each clear(@key_map)
each clear(@memory)
each clear(@entries)
each clear(@balance_map)
never throw …
exit {did clear(@balance_map)}
exit {did clear(@entries)}
exit {did clear(@key_map)}
exit {did clear(@memory)}
at lock_guard(@mutex)
at clear(@key_map)
at clear(@memory)
at clear(@entries)
at clear(@balance_map)
fn mmx::vm::StorageRAM::get_balance
never throw …
exit !{has(@balance_map, $0)} | !{has(at(@balance_map, $0), $1)} | {ret = new(uint128,default_delete<uint128>, at(at(@balance_map, $0), $1))}
exit {has(@balance_map, $0)} | {ret = 0}
exit {has(at(@balance_map, $0), $1)} | {ret = 0}
at lock_guard(@mutex)
fn mmx::vm::StorageRAM::get_entries
never throw …
exit {ret = @entries}
fn mmx::vm::StorageRAM::get_memory
never throw …
exit {ret = @memory}
fn mmx::vm::StorageRAM::lookup
never throw …
exit !{has(@key_map, $0)} | !{has(at(@key_map, $0), $1)} | {ret = at(at(@key_map, $0), $1)}
exit {has(@key_map, $0)} | {ret = 0}
exit {has(at(@key_map, $0), $1)} | {ret = 0}
at lock_guard(@mutex)
fn mmx::vm::StorageRAM::read sig=(const~mmx::addr_t~&,~const~unsigned~long)~const
never throw …
exit !{has(@memory, pair($0, $1))} | {ret = clone(at(@memory, pair($0, $1)))}
exit {has(@memory, pair($0, $1))} | {ret = 0}
at lock_guard(@mutex)
fn mmx::vm::StorageRAM::read sig=(const~mmx::addr_t~&,~const~unsigned~long,~const~unsigned~long)~const
never throw …
exit !{has(@entries, make_tuple($0, $1, $2))} | {ret = clone(at(@entries, make_tuple($0, $1, $2)))}
exit {has(@entries, make_tuple($0, $1, $2))} | {ret = 0}
at lock_guard(@mutex)
fn mmx::vm::StorageRAM::set_balance
each at(at(@balance_map, $0), $1) = $2
never throw …
exit {did at(at(@balance_map, $0), $1) = $2}
at lock_guard(@mutex)
at at(at(@balance_map, $0), $1) = $2
fn mmx::vm::StorageRAM::write sig=(const~mmx::addr_t~&,~const~unsigned~long,~const~mmx::vm::var_t~&)
each at(@memory, pair($0, $1)) = clone($2)
each at(at(@key_map, $0), clone($2)) = $1 ;; {($2.flags & FLAG_KEY)}
raise {at(@memory, pair($0, $1))} ;; {(FLAG_KEY & at(@memory, pair($0, $1)).flags)}
exit {did at(@memory, pair($0, $1)) = clone($2)}
exit !{($2.flags & FLAG_KEY)} | {did at(at(@key_map, $0), clone($2)) = $1}
exit !{(FLAG_KEY & at(@memory, pair($0, $1)).flags)} | !{at(@memory, pair($0, $1))}
at lock_guard(@mutex)
at at(@memory, pair($0, $1)) = clone($2)
at at(at(@key_map, $0), clone($2)) = $1 ;; {($2.flags & FLAG_KEY)}
fn mmx::vm::StorageRAM::write sig=(const~mmx::addr_t~&,~const~unsigned~long,~const~unsigned~long,~const~mmx::vm::var_t~&)
each at(@entries, make_tuple($0, $1, $2)) = clone($3)
never throw …
exit {did at(@entries, make_tuple($0, $1, $2)) = clone($3)}
at lock_guard(@mutex)
at at(@entries, make_tuple($0, $1, $2)) = clone($3)
fn mmx::vm::get_key
each memcpy(%shared_ptr<db_val_t>.data, data($0), HASH_KEY_SIZE)
each memcpy((%shared_ptr<db_val_t>.data + HASH_KEY_SIZE), to_big_endian($1), 8)
never throw …
exit {did memcpy(%shared_ptr<db_val_t>.data, data($0), HASH_KEY_SIZE)}
exit {did memcpy((%shared_ptr<db_val_t>.data + HASH_KEY_SIZE), to_big_endian($1), 8)}
exit {ret = %shared_ptr<db_val_t>}
at memcpy(%shared_ptr<db_val_t>.data, data($0), HASH_KEY_SIZE)
at memcpy((%shared_ptr<db_val_t>.data + HASH_KEY_SIZE), to_big_endian($1), 8)
fn mmx::vm::read_entry_key
each get0(%tuple<addr_t,unsignedlong,unsignedlong>) ;; !{$0.size < (HASH_KEY_SIZE + 16)}
each data(get0(%tuple<addr_t,unsignedlong,unsignedlong>)) ;; !{$0.size < (HASH_KEY_SIZE + 16)}
each memcpy(data(get0(%tuple<addr_t,unsignedlong,unsignedlong>)), $0.data, HASH_KEY_SIZE) ;; !{$0.size < (HASH_KEY_SIZE + 16)}
each get1(%tuple<addr_t,unsignedlong,unsignedlong>) ;; !{$0.size < (HASH_KEY_SIZE + 16)}
each memcpy(get1(%tuple<addr_t,unsignedlong,unsignedlong>), ($0.data + HASH_KEY_SIZE), 8) ;; !{$0.size < (HASH_KEY_SIZE + 16)}
each get2(%tuple<addr_t,unsignedlong,unsignedlong>) ;; !{$0.size < (HASH_KEY_SIZE + 16)}
each memcpy(get2(%tuple<addr_t,unsignedlong,unsignedlong>), ($0.data + HASH_KEY_SIZE + 8), 8) ;; !{$0.size < (HASH_KEY_SIZE + 16)}
each get1(%tuple<addr_t,unsignedlong,unsignedlong>) = from_big_endian(get1(%tuple<addr_t,unsignedlong,unsignedlong>)) ;; !{$0.size < (HASH_KEY_SIZE + 16)}
each get2(%tuple<addr_t,unsignedlong,unsignedlong>) = from_big_endian(get2(%tuple<addr_t,unsignedlong,unsignedlong>)) ;; !{$0.size < (HASH_KEY_SIZE + 16)}
raise {$0.size < (HASH_KEY_SIZE + 16)}
exit !{$0.size < (HASH_KEY_SIZE + 16)}
exit {did get0(%tuple<addr_t,unsignedlong,unsignedlong>)}
exit {did get1(%tuple<addr_t,unsignedlong,unsignedlong>) = from_big_endian(get1(%tuple<addr_t,unsignedlong,unsignedlong>))}
exit {did get1(%tuple<addr_t,unsignedlong,unsignedlong>)}
exit {did get2(%tuple<addr_t,unsignedlong,unsignedlong>) = from_big_endian(get2(%tuple<addr_t,unsignedlong,unsignedlong>))}
exit {did get2(%tuple<addr_t,unsignedlong,unsignedlong>)}
exit {did memcpy(data(get0(%tuple<addr_t,unsignedlong,unsignedlong>)), $0.data, HASH_KEY_SIZE)}
exit {did memcpy(get1(%tuple<addr_t,unsignedlong,unsignedlong>), ($0.data + HASH_KEY_SIZE), 8)}
exit {did memcpy(get2(%tuple<addr_t,unsignedlong,unsignedlong>), ($0.data + HASH_KEY_SIZE + 8), 8)}
exit {ret = %tuple<addr_t,unsignedlong,unsignedlong>}
at get0(%tuple<addr_t,unsignedlong,unsignedlong>)
at memcpy(data(get0(%tuple<addr_t,unsignedlong,unsignedlong>)), $0.data, HASH_KEY_SIZE)
at get1(%tuple<addr_t,unsignedlong,unsignedlong>)
at memcpy(get1(%tuple<addr_t,unsignedlong,unsignedlong>), ($0.data + HASH_KEY_SIZE), 8)
at get2(%tuple<addr_t,unsignedlong,unsignedlong>)
at memcpy(get2(%tuple<addr_t,unsignedlong,unsignedlong>), ($0.data + HASH_KEY_SIZE + 8), 8)
at get1(%tuple<addr_t,unsignedlong,unsignedlong>) = from_big_endian(get1(%tuple<addr_t,unsignedlong,unsignedlong>))
at get2(%tuple<addr_t,unsignedlong,unsignedlong>) = from_big_endian(get2(%tuple<addr_t,unsignedlong,unsignedlong>))
fn mmx::vm::read_key
each get0(%tuple<addr_t,unsignedlong>) ;; !{$0.size < (HASH_KEY_SIZE + 8)}
each data(get0(%tuple<addr_t,unsignedlong>)) ;; !{$0.size < (HASH_KEY_SIZE + 8)}
each memcpy(data(get0(%tuple<addr_t,unsignedlong>)), $0.data, HASH_KEY_SIZE) ;; !{$0.size < (HASH_KEY_SIZE + 8)}
each get1(%tuple<addr_t,unsignedlong>) ;; !{$0.size < (HASH_KEY_SIZE + 8)}
each memcpy(get1(%tuple<addr_t,unsignedlong>), ($0.data + HASH_KEY_SIZE), 8) ;; !{$0.size < (HASH_KEY_SIZE + 8)}
each get1(%tuple<addr_t,unsignedlong>) = from_big_endian(get1(%tuple<addr_t,unsignedlong>)) ;; !{$0.size < (HASH_KEY_SIZE + 8)}
raise {$0.size < (HASH_KEY_SIZE + 8)}
exit !{$0.size < (HASH_KEY_SIZE + 8)}
exit {did get0(%tuple<addr_t,unsignedlong>)}
exit {did get1(%tuple<addr_t,unsignedlong>) = from_big_endian(get1(%tuple<addr_t,unsignedlong>))}
exit {did get1(%tuple<addr_t,unsignedlong>)}
exit {did memcpy(data(get0(%tuple<addr_t,unsignedlong>)), $0.data, HASH_KEY_SIZE)}
exit {did memcpy(get1(%tuple<addr_t,unsignedlong>), ($0.data + HASH_KEY_SIZE), 8)}
exit {ret = %tuple<addr_t,unsignedlong>}
at get0(%tuple<addr_t,unsignedlong>)
at memcpy(data(get0(%tuple<addr_t,unsignedlong>)), $0.data, HASH_KEY_SIZE)
at get1(%tuple<addr_t,unsignedlong>)
at memcpy(get1(%tuple<addr_t,unsignedlong>), ($0.data + HASH_KEY_SIZE), 8)
at get1(%tuple<addr_t,unsignedlong>) = from_big_endian(get1(%tuple<addr_t,unsignedlong>))
fn mmx::vm::write_entry_key
each memcpy(%shared_ptr<db_val_t>.data, data($0), HASH_KEY_SIZE)
each memcpy((%shared_ptr<db_val_t>.data + HASH_KEY_SIZE), to_big_endian($1), 8)
each memcpy((%shared_ptr<db_val_t>.data + HASH_KEY_SIZE + 8), to_big_endian($2), 8)
never throw …
exit {did memcpy(%shared_ptr<db_val_t>.data, data($0), HASH_KEY_SIZE)}
exit {did memcpy((%shared_ptr<db_val_t>.data + HASH_KEY_SIZE + 8), to_big_endian($2), 8)}
exit {did memcpy((%shared_ptr<db_val_t>.data + HASH_KEY_SIZE), to_big_endian($1), 8)}
exit {ret = %shared_ptr<db_val_t>}
at memcpy(%shared_ptr<db_val_t>.data, data($0), HASH_KEY_SIZE)
at memcpy((%shared_ptr<db_val_t>.data + HASH_KEY_SIZE), to_big_endian($1), 8)
at memcpy((%shared_ptr<db_val_t>.data + HASH_KEY_SIZE + 8), to_big_endian($2), 8)
fn mmx::vm::write_index_key
each memcpy(%shared_ptr<db_val_t>.data, data($0), size($0))
each memcpy((%shared_ptr<db_val_t>.data + size($0)), serialize($1, false, false).first, serialize($1, false, false).second)
never throw …
exit {did memcpy(%shared_ptr<db_val_t>.data, data($0), size($0))}
exit {did memcpy((%shared_ptr<db_val_t>.data + size($0)), serialize($1, false, false).first, serialize($1, false, false).second)}
exit {ret = %shared_ptr<db_val_t>}
at memcpy(%shared_ptr<db_val_t>.data, data($0), size($0))
at memcpy((%shared_ptr<db_val_t>.data + size($0)), serialize($1, false, false).first, serialize($1, false, false).second)
