tus src/Node.cpp src/Node_api.cpp src/table.cpp src/Wallet.cpp
fn mmx::balance_table_t<mmx::uint128>::read
each data($1.first) ;; {$0.size == 64}
each memcpy(data($1.first), $0.data, 32) ;; {$0.size == 64}
each data($1.second) ;; {$0.size == 64}
each memcpy(data($1.second), ($0.data + 32), 32) ;; {$0.size == 64}
raise !{$0.size == 64}
exit {$0.size == 64}
exit {did data($1.first)}
exit {did data($1.second)}
exit {did memcpy(data($1.first), $0.data, 32)}
exit {did memcpy(data($1.second), ($0.data + 32), 32)}
at data($1.first)
at memcpy(data($1.first), $0.data, 32)
at data($1.second)
at memcpy(data($1.second), ($0.data + 32), 32)
fn mmx::balance_table_t<mmx::uint128>::write
each memcpy(%shared_ptr<db_val_t>.data, data($0.first), 32)
each memcpy((%shared_ptr<db_val_t>.data + 32), data($0.second), 32)
never throw …
exit {did memcpy(%shared_ptr<db_val_t>.data, data($0.first), 32)}
exit {did memcpy((%shared_ptr<db_val_t>.data + 32), data($0.second), 32)}
exit {ret = %shared_ptr<db_val_t>}
at memcpy(%shared_ptr<db_val_t>.data, data($0.first), 32)
at memcpy((%shared_ptr<db_val_t>.data + 32), data($0.second), 32)
fn mmx::hash_multi_table<mmx::addr_t,~mmx::tx_log_entry_t,~unsigned~int>::read
each data($1.first) ;; {$0.size == (size($1.first) + 4)}
each memcpy(data($1.first), $0.data, size($1.first)) ;; {$0.size == (size($1.first) + 4)}
each $1.second = from_big_endian(($0.data + size($1.first))) ;; {$0.size == (size($1.first) + 4)}
raise !{$0.size == (size($1.first) + 4)}
exit {$0.size == (size($1.first) + 4)}
exit {did $1.second = from_big_endian(($0.data + size($1.first)))}
exit {did data($1.first)}
exit {did memcpy(data($1.first), $0.data, size($1.first))}
at data($1.first)
at memcpy(data($1.first), $0.data, size($1.first))
at $1.second = from_big_endian(($0.data + size($1.first)))
fn mmx::hash_multi_table<mmx::addr_t,~mmx::tx_log_entry_t,~unsigned~int>::write
each memcpy(%shared_ptr<db_val_t>.data, data($0.first), size($0.first))
each write_value((%shared_ptr<db_val_t>.data + size($0.first)), to_big_endian($0.second))
never throw …
exit {did memcpy(%shared_ptr<db_val_t>.data, data($0.first), size($0.first))}
exit {did write_value((%shared_ptr<db_val_t>.data + size($0.first)), to_big_endian($0.second))}
exit {ret = %shared_ptr<db_val_t>}
at memcpy(%shared_ptr<db_val_t>.data, data($0.first), size($0.first))
at write_value((%shared_ptr<db_val_t>.data + size($0.first)), to_big_endian($0.second))
fn mmx::hash_table<mmx::addr_t,~mmx::uint128>::read
each data($1) ;; {$0.size == size($1)}
each memcpy(data($1), $0.data, size($1)) ;; {$0.size == size($1)}
raise !{$0.size == size($1)}
exit {$0.size == size($1)}
exit {did data($1)}
exit {did memcpy(data($1), $0.data, size($1))}
at data($1)
at memcpy(data($1), $0.data, size($1))
fn mmx::hash_table<mmx::addr_t,~mmx::uint128>::write
each memcpy(%shared_ptr<db_val_t>.data, data($0), size($0))
never throw …
exit {did memcpy(%shared_ptr<db_val_t>.data, data($0), size($0))}
exit {ret = %shared_ptr<db_val_t>}
at memcpy(%shared_ptr<db_val_t>.data, data($0), size($0))
fn mmx::hash_uint_table<mmx::pubkey_t,~unsigned~int,~mmx::farmed_block_info_t>::read
each data($1.first) ;; {$0.size == (size($1.first) + 4)}
each memcpy(data($1.first), $0.data, size($1.first)) ;; {$0.size == (size($1.first) + 4)}
each $1.second = from_big_endian(($0.data + size($1.first))) ;; {$0.size == (size($1.first) + 4)}
raise !{$0.size == (size($1.first) + 4)}
exit {$0.size == (size($1.first) + 4)}
exit {did $1.second = from_big_endian(($0.data + size($1.first)))}
exit {did data($1.first)}
exit {did memcpy(data($1.first), $0.data, size($1.first))}
at data($1.first)
at memcpy(data($1.first), $0.data, size($1.first))
at $1.second = from_big_endian(($0.data + size($1.first)))
fn mmx::hash_uint_table<mmx::pubkey_t,~unsigned~int,~mmx::farmed_block_info_t>::write
each memcpy(%shared_ptr<db_val_t>.data, data($0.first), size($0.first))
each write_value((%shared_ptr<db_val_t>.data + size($0.first)), to_big_endian($0.second))
never throw …
exit {did memcpy(%shared_ptr<db_val_t>.data, data($0.first), size($0.first))}
exit {did write_value((%shared_ptr<db_val_t>.data + size($0.first)), to_big_endian($0.second))}
exit {ret = %shared_ptr<db_val_t>}
at memcpy(%shared_ptr<db_val_t>.data, data($0.first), size($0.first))
at write_value((%shared_ptr<db_val_t>.data + size($0.first)), to_big_endian($0.second))
fn mmx::hash_uint_uint_table<mmx::addr_t,~unsigned~int,~unsigned~int,~mmx::exec_entry_t>::read
each get0($1)
each data(get0($1)) ;; {$0.size == (size(get0($1)) + 8)}
each memcpy(data(get0($1)), $0.data, size(get0($1))) ;; {$0.size == (size(get0($1)) + 8)}
each get1(out(get0‥)) ;; {$0.size == (size(get0($1)) + 8)}
each get1(out(get0‥)) = from_big_endian(($0.data + size(get0($1)))) ;; {$0.size == (size(get0($1)) + 8)}
each get2(out(get1‥)) ;; {$0.size == (size(get0($1)) + 8)}
each get2(out(get1‥)) = from_big_endian(($0.data + size(get0($1)) + 4)) ;; {$0.size == (size(get0($1)) + 8)}
raise !{$0.size == (size(get0($1)) + 8)}
exit {$0.size == (size(get0($1)) + 8)}
exit {did data(get0($1))}
exit {did get0($1)}
exit {did get1(out(get0‥)) = from_big_endian(($0.data + size(get0($1))))}
exit {did get1(out(get0‥))}
exit {did get2(out(get1‥)) = from_big_endian(($0.data + size(get0($1)) + 4))}
exit {did get2(out(get1‥))}
exit {did memcpy(data(get0($1)), $0.data, size(get0($1)))}
exit {out $1 = out(get2‥)}
at get0($1)
at data(get0($1))
at memcpy(data(get0($1)), $0.data, size(get0($1)))
at get1(out(get0‥))
at get1(out(get0‥)) = from_big_endian(($0.data + size(get0($1))))
at get2(out(get1‥))
at get2(out(get1‥)) = from_big_endian(($0.data + size(get0($1)) + 4))
fn mmx::hash_uint_uint_table<mmx::addr_t,~unsigned~int,~unsigned~int,~mmx::exec_entry_t>::write
each memcpy(%shared_ptr<db_val_t>.data, data(get0($0)), size(get0($0)))
each write_value((%shared_ptr<db_val_t>.data + size(get0($0))), to_big_endian(get1($0)))
each write_value((%shared_ptr<db_val_t>.data + size(get0($0)) + 4), to_big_endian(get2($0)))
never throw …
exit {did memcpy(%shared_ptr<db_val_t>.data, data(get0($0)), size(get0($0)))}
exit {did write_value((%shared_ptr<db_val_t>.data + size(get0($0)) + 4), to_big_endian(get2($0)))}
exit {did write_value((%shared_ptr<db_val_t>.data + size(get0($0))), to_big_endian(get1($0)))}
exit {ret = %shared_ptr<db_val_t>}
at memcpy(%shared_ptr<db_val_t>.data, data(get0($0)), size(get0($0)))
at write_value((%shared_ptr<db_val_t>.data + size(get0($0))), to_big_endian(get1($0)))
at write_value((%shared_ptr<db_val_t>.data + size(get0($0)) + 4), to_big_endian(get2($0)))
fn mmx::multi_table<mmx::addr_t,~mmx::tx_log_entry_t,~unsigned~int>::find_last
each clear($1)
each seek_prev(%Table::Iterator, write(pair($0, max())))
each read(key(%Table::Iterator), fold(pair($0, max()), out(read‥, key(%Table::Iterator)))) ;; {is_valid(%Table::Iterator)} ;; {size($1) < $2}
each read(value(%Table::Iterator), %tx_log_entry_t, @value_type, @value_code) ;; {is_valid(%Table::Iterator)} ;; {size($1) < $2} ;; {$0 == out(read‥, key(%Table::Iterator)).first}
each push_back($1, %tx_log_entry_t) ;; {is_valid(%Table::Iterator)} ;; {size($1) < $2} ;; {$0 == out(read‥, key(%Table::Iterator)).first}
each prev(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; {size($1) < $2} ;; {$0 == out(read‥, key(%Table::Iterator)).first}
never throw …
at ctor:Table::Iterator(@db)
value fold(pair($0, max()), out(read#v, key(%Table::Iterator)))
exit {did clear($1)}
exit {did read(key(%Table::Iterator), fold(pair($0, max()), out(read‥, key(%Table::Iterator))))}
exit {did seek_prev(%Table::Iterator, write(pair($0, max())))}
exit {ret = size($1)}
exit !{$0 == out(read‥, key(%Table::Iterator)).first} | !{is_valid(%Table::Iterator)} | !{size($1) < $2}
exit !{is_valid(%Table::Iterator)} | !{size($1) < $2} | {$0 == out(read‥, key(%Table::Iterator)).first} | {did break(loop)}
at clear($1)
at seek_prev(%Table::Iterator, write(pair($0, max())))
at read(key(%Table::Iterator), fold(pair($0, max()), out(read‥, key(%Table::Iterator)))) ;; {is_valid(%Table::Iterator)} ;; {size($1) < $2}
never break(loop) ;; {is_valid(%Table::Iterator)} ;; {size($1) < $2} ;; !{$0 == out(read‥, key(%Table::Iterator)).first}
at read(value(%Table::Iterator), %tx_log_entry_t, @value_type, @value_code) ;; {is_valid(%Table::Iterator)} ;; {size($1) < $2} ;; {$0 == out(read‥, key(%Table::Iterator)).first}
at push_back($1, %tx_log_entry_t) ;; {is_valid(%Table::Iterator)} ;; {size($1) < $2} ;; {$0 == out(read‥, key(%Table::Iterator)).first}
at prev(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; {size($1) < $2} ;; {$0 == out(read‥, key(%Table::Iterator)).first}
fn mmx::multi_table<mmx::addr_t,~mmx::tx_log_entry_t,~unsigned~int>::insert
each insert_many($0, ctor(vector<tx_log_entry_t>, init(tx_log_entry_t[1], $1)))
never throw …
exit {did insert_many($0, ctor(vector<tx_log_entry_t>, init(tx_log_entry_t[1], $1)))}
at insert_many($0, ctor(vector<tx_log_entry_t>, init(tx_log_entry_t[1], $1)))
fn mmx::multi_table<mmx::addr_t,~mmx::tx_log_entry_t,~unsigned~int>::insert_many
each seek_prev(%Table::Iterator, write(%mpair<addr_t,unsignedint>))
each %mpair<addr_t,unsignedint>.second = 0
each read(key(%Table::Iterator), %pair<addr_t,unsignedint>) ;; {is_valid(%Table::Iterator)}
each %mpair<addr_t,unsignedint>.second = (%pair<addr_t,unsignedint>.second + 1) ;; {is_valid(%Table::Iterator)} ;; {$0 == %pair<addr_t,unsignedint>.first}
each insert(%mpair<addr_t,unsignedint>, elem($1)) ;; !{%mpair<addr_t,unsignedint>.second == max()}
each %mpair<addr_t,unsignedint>.second = (%mpair<addr_t,unsignedint>.second + 1) ;; !{%mpair<addr_t,unsignedint>.second == max()}
never break(loop)
never break($1)
exit {did %mpair<addr_t,unsignedint>.second = 0}
exit {did seek_prev(%Table::Iterator, write(%mpair<addr_t,unsignedint>))}
exit !{is_valid(%Table::Iterator)} | {did read(key(%Table::Iterator), %pair<addr_t,unsignedint>)}
exit !{$0 == %pair<addr_t,unsignedint>.first} | !{is_valid(%Table::Iterator)} | {did %mpair<addr_t,unsignedint>.second = (%pair<addr_t,unsignedint>.second + 1)}
exit {empty($1)} | {did insert(%mpair<addr_t,unsignedint>, elem($1))}
exit {empty($1)} | {did %mpair<addr_t,unsignedint>.second = (%mpair<addr_t,unsignedint>.second + 1)}
exit !{%mpair<addr_t,unsignedint>.second == max()} | {empty($1)}
at seek_prev(%Table::Iterator, write(%mpair<addr_t,unsignedint>))
at %mpair<addr_t,unsignedint>.second = 0
at read(key(%Table::Iterator), %pair<addr_t,unsignedint>) ;; {is_valid(%Table::Iterator)}
at %mpair<addr_t,unsignedint>.second = (%pair<addr_t,unsignedint>.second + 1) ;; {is_valid(%Table::Iterator)} ;; {$0 == %pair<addr_t,unsignedint>.first}
at insert(%mpair<addr_t,unsignedint>, elem($1)) ;; !{%mpair<addr_t,unsignedint>.second == max()}
at %mpair<addr_t,unsignedint>.second = (%mpair<addr_t,unsignedint>.second + 1)
fn mmx::multi_table<unsigned~int,~mmx::hash_t,~unsigned~int>::find
each clear($1)
each seek(%Table::Iterator, write(pair($0, 0)))
each read(key(%Table::Iterator), fold(pair($0, 0), out(read‥, key(%Table::Iterator)))) ;; {is_valid(%Table::Iterator)}
each read(value(%Table::Iterator), ctor(hash_t), @value_type, @value_code) ;; {is_valid(%Table::Iterator)} ;; {$0 == out(read‥, key(%Table::Iterator)).first} | {$2}
each push_back($1, out(read‥, value(%Table::Iterator), @value_type, @value_code)) ;; {is_valid(%Table::Iterator)} ;; {$0 == out(read‥, key(%Table::Iterator)).first} | {$2}
each next(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; {$0 == out(read‥, key(%Table::Iterator)).first} | {$2}
never throw …
value fold(pair($0, 0), out(read#v, key(%Table::Iterator)))
exit {did clear($1)}
exit {did read(key(%Table::Iterator), fold(pair($0, 0), out(read‥, key(%Table::Iterator))))}
exit {did seek(%Table::Iterator, write(pair($0, 0)))}
exit {ret = size($1)}
exit !{$0 == out(read‥, key(%Table::Iterator)).first} | !{is_valid(%Table::Iterator)}
exit !{$2} | !{is_valid(%Table::Iterator)}
exit !{is_valid(%Table::Iterator)} | {$0 == out(read‥, key(%Table::Iterator)).first} | {$2} | {did break(loop)}
at clear($1)
at seek(%Table::Iterator, write(pair($0, 0)))
at read(key(%Table::Iterator), fold(pair($0, 0), out(read‥, key(%Table::Iterator)))) ;; {is_valid(%Table::Iterator)}
never break(loop) ;; {is_valid(%Table::Iterator)} ;; !{$2} ;; !{$0 == out(read‥, key(%Table::Iterator)).first}
at read(value(%Table::Iterator), ctor(hash_t), @value_type, @value_code) ;; {is_valid(%Table::Iterator)} ;; {$0 == out(read‥, key(%Table::Iterator)).first} | {$2}
at push_back($1, out(read‥, value(%Table::Iterator), @value_type, @value_code)) ;; {is_valid(%Table::Iterator)} ;; {$0 == out(read‥, key(%Table::Iterator)).first} | {$2}
at next(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; {$0 == out(read‥, key(%Table::Iterator)).first} | {$2}
fn mmx::multi_table<unsigned~int,~mmx::hash_t,~unsigned~int>::find_range
each clear($2)
each seek(%Table::Iterator, write(pair($0, 0)))
each read(key(%Table::Iterator), fold(pair($0, 0), out(read‥, key(%Table::Iterator)))) ;; {is_valid(%Table::Iterator)}
each read(value(%Table::Iterator), ctor(hash_t), @value_type, @value_code) ;; {is_valid(%Table::Iterator)} ;; {out(read‥, key(%Table::Iterator)).first < $1}
each push_back($2, out(read‥, value(%Table::Iterator), @value_type, @value_code)) ;; {is_valid(%Table::Iterator)} ;; {out(read‥, key(%Table::Iterator)).first < $1}
each next(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; {out(read‥, key(%Table::Iterator)).first < $1}
never throw …
value fold(pair($0, 0), out(read#v, key(%Table::Iterator)))
exit {did clear($2)}
exit {did read(key(%Table::Iterator), fold(pair($0, 0), out(read‥, key(%Table::Iterator))))}
exit {did seek(%Table::Iterator, write(pair($0, 0)))}
exit {ret = size($2)}
exit !{is_valid(%Table::Iterator)} | !{out(read‥, key(%Table::Iterator)).first < $1}
exit !{is_valid(%Table::Iterator)} | {did break(loop)} | {out(read‥, key(%Table::Iterator)).first < $1}
at clear($2)
at seek(%Table::Iterator, write(pair($0, 0)))
at read(key(%Table::Iterator), fold(pair($0, 0), out(read‥, key(%Table::Iterator)))) ;; {is_valid(%Table::Iterator)}
never break(loop) ;; {is_valid(%Table::Iterator)} ;; !{out(read‥, key(%Table::Iterator)).first < $1}
at read(value(%Table::Iterator), ctor(hash_t), @value_type, @value_code) ;; {is_valid(%Table::Iterator)} ;; {out(read‥, key(%Table::Iterator)).first < $1}
at push_back($2, out(read‥, value(%Table::Iterator), @value_type, @value_code)) ;; {is_valid(%Table::Iterator)} ;; {out(read‥, key(%Table::Iterator)).first < $1}
at next(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; {out(read‥, key(%Table::Iterator)).first < $1}
fn mmx::sync_type_codes
each scan(%uint_table<unsignedlong,TypeCode>, lambda)
each build(%shared_ptr<TypeCode>)
each find(%uint_table<unsignedlong,TypeCode>, elem(get_all_type_codes()).code_hash, %TypeCode, 4294967295)
each insert(%uint_table<unsignedlong,TypeCode>, elem(get_all_type_codes()).code_hash, elem(get_all_type_codes())) ;; !{find(%uint_table<unsignedlong,TypeCode>, elem(get_all_type_codes()).code_hash, %TypeCode, 4294967295)}
each commit(%uint_table<unsignedlong,TypeCode>) ;; {total(get_all_type_codes(), ite((!{‥} && !{find(%uint_table<unsignedlong,TypeCode>, elem(get_all_type_codes()).code_hash, %TypeCode, 4294967295)}), 1, 0))}
never break(get_all_type_codes())
never throw …
exit {did scan(%uint_table<unsignedlong,TypeCode>, lambda)}
at scan(%uint_table<unsignedlong,TypeCode>, lambda)
at build(%shared_ptr<TypeCode>)
at find(%uint_table<unsignedlong,TypeCode>, elem(get_all_type_codes()).code_hash, %TypeCode, 4294967295)
at insert(%uint_table<unsignedlong,TypeCode>, elem(get_all_type_codes()).code_hash, elem(get_all_type_codes())) ;; !{find(%uint_table<unsignedlong,TypeCode>, elem(get_all_type_codes()).code_hash, %TypeCode, 4294967295)}
at commit(%uint_table<unsignedlong,TypeCode>) ;; {total(get_all_type_codes(), ite((!{…} && !{find(%uint_table<unsignedlong,TypeCode>, elem(get_all_type_codes()).code_hash, %TypeCode, 4294967295)}), 1, 0))}
fn mmx::table<mmx::addr_t,~mmx::uint128>::close
each @db = 0
never throw …
exit {did @db = 0}
at @db = 0
fn mmx::table<mmx::addr_t,~mmx::uint128>::find
each read(find(@db, write($0), $2), $1, @value_type, @value_code) ;; {has(@db, write($0))}
never throw …
exit {out $1 = ite({has(@db, write($0))}, out(read‥, find(@db, write($0), $2), @value_type, @value_code), $1)}
exit !{has(@db, write($0))} | {did read(find(@db, write($0), $2), $1, @value_type, @value_code)}
exit !{has(@db, write($0))} | {out $1 = out(read‥, find(@db, write($0), $2), @value_type, @value_code)}
exit {has(@db, write($0))} | {out $1 = $1}
true {has(@db, write($0))}
false !{has(@db, write($0))}
at read(find(@db, write($0), $2), $1, @value_type, @value_code) ;; {has(@db, write($0))}
fn mmx::table<mmx::addr_t,~mmx::uint128>::insert
each write($1, @value_type, @value_code)
each insert(@db, write($0), write($1, @value_type, @value_code))
never throw …
exit {did insert(@db, write($0), write($1, @value_type, @value_code))}
exit {did write($1, @value_type, @value_code)}
at write($1, @value_type, @value_code)
at insert(@db, write($0), write($1, @value_type, @value_code))
fn mmx::table<mmx::addr_t,~mmx::uint128>::open
each close()
each @db = new(Table, $0)
never throw …
exit {did @db = new(Table, $0)}
exit {did close()}
exit {ret = new(Table, $0)}
at close()
at @db = new(Table, $0)
fn mmx::table<mmx::addr_t,~mmx::uint128>::read
each read(%TypeInput, $1, $2, ite({$2}, 0, data($3)))
never throw …
at ctor:PointerInputStream($0.data, $0.size)
exit {did read(%TypeInput, $1, $2, ite({$2}, 0, data($3)))}
exit {out $1 = out(read‥, %TypeInput, $2, ite({$2}, 0, data($3)))}
at read(%TypeInput, $1, $2, ite({$2}, 0, data($3)))
fn mmx::table<mmx::addr_t,~mmx::uint128>::write
each reset(@stream.out)
each clear(@stream.memory)
each write(@stream.out, $0, $1, ite({$1}, 0, data($2)))
each @stream.buffer = @stream.memory ;; {get_size(@stream.memory)}
each data(@stream.memory) ;; {get_size(@stream.memory)}
never throw …
exit {did clear(@stream.memory)}
exit {did reset(@stream.out)}
exit {did write(@stream.out, $0, $1, ite({$1}, 0, data($2)))}
exit {ret = ite({get_size(@stream.memory)}, new(db_val_t, data(@stream.memory), size(@stream.memory)), new(db_val_t, get_buffer(@stream.out), get_buffer_pos(@stream.out)))}
exit !{get_size(@stream.memory)} | {did @stream.buffer = @stream.memory}
exit !{get_size(@stream.memory)} | {did data(@stream.memory)}
exit !{get_size(@stream.memory)} | {did flush(@stream.out)}
exit !{get_size(@stream.memory)} | {ret = new(db_val_t, data(@stream.memory), size(@stream.memory))}
exit {get_size(@stream.memory)} | {ret = new(db_val_t, get_buffer(@stream.out), get_buffer_pos(@stream.out))}
at reset(@stream.out)
at clear(@stream.memory)
at write(@stream.out, $0, $1, ite({$1}, 0, data($2)))
at flush(@stream.out) ;; {get_size(@stream.memory)}
at @stream.buffer = @stream.memory ;; {get_size(@stream.memory)}
at data(@stream.memory) ;; {get_size(@stream.memory)}
fn mmx::table<std::pair<mmx::addr_t,~mmx::addr_t>,~mmx::uint128>::count
each find($0, 0, $1)
never throw …
exit {did find($0, 0, $1)}
true {find($0, 0, $1)}
false !{find($0, 0, $1)}
at find($0, 0, $1)
fn mmx::table<std::pair<mmx::addr_t,~mmx::addr_t>,~mmx::uint128>::find_range
each clear($2)
each seek(%Table::Iterator, write($0))
each read(key(%Table::Iterator), %pair<addr_t,addr_t>) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3}
each %pair<pair<addr_t,addr_t>,uint128>.first = %pair<addr_t,addr_t> ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {%pair<addr_t,addr_t> < $1}
each read(value(%Table::Iterator), %pair<pair<addr_t,addr_t>,uint128>.second, @value_type, @value_code) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {%pair<addr_t,addr_t> < $1}
each push_back($2, %pair<pair<addr_t,addr_t>,uint128>) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {%pair<addr_t,addr_t> < $1}
each next(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {%pair<addr_t,addr_t> < $1}
never throw …
exit {did clear($2)}
exit {did seek(%Table::Iterator, write($0))}
exit {ret = size($2)}
exit !{%pair<addr_t,addr_t> < $1} | !{is_valid(%Table::Iterator)} | !{size($2) < $3}
exit !{is_valid(%Table::Iterator)} | !{size($2) < $3} | {%pair<addr_t,addr_t> < $1} | {did break(loop)}
exit !{is_valid(%Table::Iterator)} | !{size($2) < $3} | {%pair<addr_t,addr_t> < $1} | {did read(key(%Table::Iterator), %pair<addr_t,addr_t>)}
at clear($2)
at seek(%Table::Iterator, write($0))
at read(key(%Table::Iterator), %pair<addr_t,addr_t>) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3}
never break(loop) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; !{%pair<addr_t,addr_t> < $1}
at %pair<pair<addr_t,addr_t>,uint128>.first = %pair<addr_t,addr_t> ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {%pair<addr_t,addr_t> < $1}
at read(value(%Table::Iterator), %pair<pair<addr_t,addr_t>,uint128>.second, @value_type, @value_code) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {%pair<addr_t,addr_t> < $1}
at push_back($2, %pair<pair<addr_t,addr_t>,uint128>) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {%pair<addr_t,addr_t> < $1}
at next(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {%pair<addr_t,addr_t> < $1}
fn mmx::table<std::pair<mmx::addr_t,~mmx::addr_t>,~mmx::uint128>::scan
each seek_begin(%Table::Iterator)
each read(key(%Table::Iterator), %pair<addr_t,addr_t>) ;; {is_valid(%Table::Iterator)}
each read(value(%Table::Iterator), 0, @value_type, @value_code) ;; {is_valid(%Table::Iterator)}
each $0(%pair<addr_t,addr_t>, ite({‥}, maybe(0), out(read‥, value(%Table::Iterator), @value_type, @value_code))) ;; {is_valid(%Table::Iterator)}
each next(%Table::Iterator) ;; {is_valid(%Table::Iterator)}
never throw …
exit {did seek_begin(%Table::Iterator)}
at seek_begin(%Table::Iterator)
at read(key(%Table::Iterator), %pair<addr_t,addr_t>) ;; {is_valid(%Table::Iterator)}
at read(value(%Table::Iterator), 0, @value_type, @value_code) ;; {is_valid(%Table::Iterator)}
at $0(%pair<addr_t,addr_t>, ite({…}, maybe(0), out(read‥, value(%Table::Iterator), @value_type, @value_code))) ;; {is_valid(%Table::Iterator)}
never break(loop) ;; {is_valid(%Table::Iterator)} ;; !{apply($0, %pair<addr_t,addr_t>, ite({…}, maybe(0), out(read‥, value(%Table::Iterator), @value_type, @value_code)))}
at next(%Table::Iterator) ;; {is_valid(%Table::Iterator)}
fn mmx::table<std::pair<mmx::addr_t,~unsigned~int>,~mmx::tx_log_entry_t>::commit
each commit(@db, (current_version(@db) + 1), true)
never throw …
exit {did commit(@db, (current_version(@db) + 1), true)}
at commit(@db, (current_version(@db) + 1), true)
fn mmx::table<std::pair<mmx::pubkey_t,~unsigned~int>,~mmx::farmed_block_info_t>::find_last_range
each clear($2)
each seek_prev(%Table::Iterator, write($1))
each read(key(%Table::Iterator), %pair<pubkey_t,unsignedint>) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3}
each read(value(%Table::Iterator), %farmed_block_info_t, @value_type, @value_code) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {$0 < %pair<pubkey_t,unsignedint>} | {$0 == %pair<pubkey_t,unsignedint>}
each push_back($2, %farmed_block_info_t) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {$0 < %pair<pubkey_t,unsignedint>} | {$0 == %pair<pubkey_t,unsignedint>}
each prev(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {$0 < %pair<pubkey_t,unsignedint>} | {$0 == %pair<pubkey_t,unsignedint>}
never throw …
exit {did clear($2)}
exit {did seek_prev(%Table::Iterator, write($1))}
exit {ret = size($2)}
exit !{$0 < %pair<pubkey_t,unsignedint>} | !{is_valid(%Table::Iterator)} | !{size($2) < $3}
exit !{$0 == %pair<pubkey_t,unsignedint>} | !{is_valid(%Table::Iterator)} | !{size($2) < $3}
exit !{is_valid(%Table::Iterator)} | !{size($2) < $3} | {$0 < %pair<pubkey_t,unsignedint>} | {$0 == %pair<pubkey_t,unsignedint>} | {did break(loop)}
exit !{is_valid(%Table::Iterator)} | !{size($2) < $3} | {$0 < %pair<pubkey_t,unsignedint>} | {$0 == %pair<pubkey_t,unsignedint>} | {did read(key(%Table::Iterator), %pair<pubkey_t,unsignedint>)}
at clear($2)
at seek_prev(%Table::Iterator, write($1))
at read(key(%Table::Iterator), %pair<pubkey_t,unsignedint>) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3}
never break(loop) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; !{$0 < %pair<pubkey_t,unsignedint>} ;; !{$0 == %pair<pubkey_t,unsignedint>}
at read(value(%Table::Iterator), %farmed_block_info_t, @value_type, @value_code) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {$0 < %pair<pubkey_t,unsignedint>} | {$0 == %pair<pubkey_t,unsignedint>}
at push_back($2, %farmed_block_info_t) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {$0 < %pair<pubkey_t,unsignedint>} | {$0 == %pair<pubkey_t,unsignedint>}
at prev(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {$0 < %pair<pubkey_t,unsignedint>} | {$0 == %pair<pubkey_t,unsignedint>}
fn mmx::table<std::pair<mmx::pubkey_t,~unsigned~int>,~mmx::farmed_block_info_t>::find_range
each clear($2)
each seek(%Table::Iterator, write($0))
each read(key(%Table::Iterator), %pair<pubkey_t,unsignedint>) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3}
each read(value(%Table::Iterator), %farmed_block_info_t, @value_type, @value_code) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {%pair<pubkey_t,unsignedint> < $1}
each push_back($2, %farmed_block_info_t) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {%pair<pubkey_t,unsignedint> < $1}
each next(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {%pair<pubkey_t,unsignedint> < $1}
never throw …
exit {did clear($2)}
exit {did seek(%Table::Iterator, write($0))}
exit {ret = size($2)}
exit !{%pair<pubkey_t,unsignedint> < $1} | !{is_valid(%Table::Iterator)} | !{size($2) < $3}
exit !{is_valid(%Table::Iterator)} | !{size($2) < $3} | {%pair<pubkey_t,unsignedint> < $1} | {did break(loop)}
exit !{is_valid(%Table::Iterator)} | !{size($2) < $3} | {%pair<pubkey_t,unsignedint> < $1} | {did read(key(%Table::Iterator), %pair<pubkey_t,unsignedint>)}
at clear($2)
at seek(%Table::Iterator, write($0))
at read(key(%Table::Iterator), %pair<pubkey_t,unsignedint>) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3}
never break(loop) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; !{%pair<pubkey_t,unsignedint> < $1}
at read(value(%Table::Iterator), %farmed_block_info_t, @value_type, @value_code) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {%pair<pubkey_t,unsignedint> < $1}
at push_back($2, %farmed_block_info_t) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {%pair<pubkey_t,unsignedint> < $1}
at next(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {%pair<pubkey_t,unsignedint> < $1}
fn mmx::table<std::pair<unsigned~int,~unsigned~int>,~mmx::trade_log_t>::find_last_range
each clear($2)
each seek_prev(%Table::Iterator, write($1))
each read(key(%Table::Iterator), %pair<unsignedint,unsignedint>) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3}
each %pair<pair<unsignedint,unsignedint>,trade_log_t>.first = %pair<unsignedint,unsignedint> ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {$0 < %pair<unsignedint,unsignedint>} | {$0 == %pair<unsignedint,unsignedint>}
each read(value(%Table::Iterator), %pair<pair<unsignedint,unsignedint>,trade_log_t>.second, @value_type, @value_code) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {$0 < %pair<unsignedint,unsignedint>} | {$0 == %pair<unsignedint,unsignedint>}
each push_back($2, %pair<pair<unsignedint,unsignedint>,trade_log_t>) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {$0 < %pair<unsignedint,unsignedint>} | {$0 == %pair<unsignedint,unsignedint>}
each prev(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {$0 < %pair<unsignedint,unsignedint>} | {$0 == %pair<unsignedint,unsignedint>}
never throw …
exit {did clear($2)}
exit {did seek_prev(%Table::Iterator, write($1))}
exit {ret = size($2)}
exit !{$0 < %pair<unsignedint,unsignedint>} | !{is_valid(%Table::Iterator)} | !{size($2) < $3}
exit !{$0 == %pair<unsignedint,unsignedint>} | !{is_valid(%Table::Iterator)} | !{size($2) < $3}
exit !{is_valid(%Table::Iterator)} | !{size($2) < $3} | {$0 < %pair<unsignedint,unsignedint>} | {$0 == %pair<unsignedint,unsignedint>} | {did break(loop)}
exit !{is_valid(%Table::Iterator)} | !{size($2) < $3} | {$0 < %pair<unsignedint,unsignedint>} | {$0 == %pair<unsignedint,unsignedint>} | {did read(key(%Table::Iterator), %pair<unsignedint,unsignedint>)}
at clear($2)
at seek_prev(%Table::Iterator, write($1))
at read(key(%Table::Iterator), %pair<unsignedint,unsignedint>) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3}
never break(loop) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; !{$0 < %pair<unsignedint,unsignedint>} ;; !{$0 == %pair<unsignedint,unsignedint>}
at %pair<pair<unsignedint,unsignedint>,trade_log_t>.first = %pair<unsignedint,unsignedint> ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {$0 < %pair<unsignedint,unsignedint>} | {$0 == %pair<unsignedint,unsignedint>}
at read(value(%Table::Iterator), %pair<pair<unsignedint,unsignedint>,trade_log_t>.second, @value_type, @value_code) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {$0 < %pair<unsignedint,unsignedint>} | {$0 == %pair<unsignedint,unsignedint>}
at push_back($2, %pair<pair<unsignedint,unsignedint>,trade_log_t>) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {$0 < %pair<unsignedint,unsignedint>} | {$0 == %pair<unsignedint,unsignedint>}
at prev(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; {size($2) < $3} ;; {$0 < %pair<unsignedint,unsignedint>} | {$0 == %pair<unsignedint,unsignedint>}
fn mmx::table<unsigned~int,~mmx::hash_t>::find_last
each seek_last(%Table::Iterator)
each read(key(%Table::Iterator), $0) ;; {is_valid(%Table::Iterator)}
each read(value(%Table::Iterator), $1, @value_type, @value_code) ;; {is_valid(%Table::Iterator)}
never throw …
exit {did seek_last(%Table::Iterator)}
exit {out $0 = ite({is_valid(%Table::Iterator)}, out(read‥, key(%Table::Iterator)), 0)}
exit {out $1 = ite({is_valid(%Table::Iterator)}, out(read‥, value(%Table::Iterator), @value_type, @value_code), ctor(hash_t))}
exit !{is_valid(%Table::Iterator)} | {did read(key(%Table::Iterator), $0)}
exit !{is_valid(%Table::Iterator)} | {did read(value(%Table::Iterator), $1, @value_type, @value_code)}
exit !{is_valid(%Table::Iterator)} | {out $0 = out(read‥, key(%Table::Iterator))}
exit !{is_valid(%Table::Iterator)} | {out $1 = out(read‥, value(%Table::Iterator), @value_type, @value_code)}
exit {is_valid(%Table::Iterator)} | {out $0 = 0}
exit {is_valid(%Table::Iterator)} | {out $1 = ctor(hash_t)}
true {is_valid(%Table::Iterator)}
false !{is_valid(%Table::Iterator)}
at seek_last(%Table::Iterator)
at read(key(%Table::Iterator), $0) ;; {is_valid(%Table::Iterator)}
at read(value(%Table::Iterator), $1, @value_type, @value_code) ;; {is_valid(%Table::Iterator)}
fn mmx::table<unsigned~int,~std::vector<mmx::hash_t,~std::allocator<mmx::hash_t>>>::find_greater_equal
never break(loop)
each clear($1)
each seek(%Table::Iterator, write($0))
each read(value(%Table::Iterator), %vector<hash_t>, @value_type, @value_code) ;; {is_valid(%Table::Iterator)} ;; {size($1) < $2}
each push_back($1, %vector<hash_t>) ;; {is_valid(%Table::Iterator)} ;; {size($1) < $2}
each next(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; {size($1) < $2}
never throw …
exit {did clear($1)}
exit {did seek(%Table::Iterator, write($0))}
exit {ret = size($1)}
exit !{is_valid(%Table::Iterator)} | !{size($1) < $2}
at clear($1)
at seek(%Table::Iterator, write($0))
at read(value(%Table::Iterator), %vector<hash_t>, @value_type, @value_code) ;; {is_valid(%Table::Iterator)} ;; {size($1) < $2}
at push_back($1, %vector<hash_t>) ;; {is_valid(%Table::Iterator)} ;; {size($1) < $2}
at next(%Table::Iterator) ;; {is_valid(%Table::Iterator)} ;; {size($1) < $2}
fn mmx::table<unsigned~int,~std::vector<mmx::hash_t,~std::allocator<mmx::hash_t>>>::reverse_scan
each seek_last(%Table::Iterator)
each read(key(%Table::Iterator), undef) ;; {is_valid(%Table::Iterator)}
each read(value(%Table::Iterator), %vector<hash_t>, @value_type, @value_code) ;; {is_valid(%Table::Iterator)}
each $0(ite({‥}, maybe(undef), out(read‥, key(%Table::Iterator))), %vector<hash_t>) ;; {is_valid(%Table::Iterator)}
each prev(%Table::Iterator) ;; {is_valid(%Table::Iterator)}
never throw …
exit {did seek_last(%Table::Iterator)}
at seek_last(%Table::Iterator)
at read(key(%Table::Iterator), undef) ;; {is_valid(%Table::Iterator)}
at read(value(%Table::Iterator), %vector<hash_t>, @value_type, @value_code) ;; {is_valid(%Table::Iterator)}
at $0(ite({…}, maybe(undef), out(read‥, key(%Table::Iterator))), %vector<hash_t>) ;; {is_valid(%Table::Iterator)}
never break(loop) ;; {is_valid(%Table::Iterator)} ;; !{apply($0, ite({…}, maybe(undef), out(read‥, key(%Table::Iterator))), %vector<hash_t>)}
at prev(%Table::Iterator) ;; {is_valid(%Table::Iterator)}
fn mmx::uint_multi_table<unsigned~int,~mmx::hash_t,~unsigned~int>::read
each $1.first = from_big_endian($0.data) ;; {$0.size == 8}
each $1.second = from_big_endian(($0.data + 4)) ;; {$0.size == 8}
raise !{$0.size == 8}
exit {$0.size == 8}
exit {did $1.first = from_big_endian($0.data)}
exit {did $1.second = from_big_endian(($0.data + 4))}
at $1.first = from_big_endian($0.data)
at $1.second = from_big_endian(($0.data + 4))
fn mmx::uint_multi_table<unsigned~int,~mmx::hash_t,~unsigned~int>::write
each write_value(%shared_ptr<db_val_t>.data, to_big_endian($0.first))
each write_value((%shared_ptr<db_val_t>.data + 4), to_big_endian($0.second))
never throw …
exit {did write_value(%shared_ptr<db_val_t>.data, to_big_endian($0.first))}
exit {did write_value((%shared_ptr<db_val_t>.data + 4), to_big_endian($0.second))}
exit {ret = %shared_ptr<db_val_t>}
at write_value(%shared_ptr<db_val_t>.data, to_big_endian($0.first))
at write_value((%shared_ptr<db_val_t>.data + 4), to_big_endian($0.second))
fn mmx::uint_table<unsigned~int,~mmx::hash_t>::read
raise !{$0.size == 4}
exit {$0.size == 4}
exit {out $1 = from_big_endian($0.data)}
fn mmx::uint_table<unsigned~int,~mmx::hash_t>::write
each write_value(%shared_ptr<db_val_t>.data, to_big_endian($0))
never throw …
exit {did write_value(%shared_ptr<db_val_t>.data, to_big_endian($0))}
exit {ret = %shared_ptr<db_val_t>}
at write_value(%shared_ptr<db_val_t>.data, to_big_endian($0))
fn mmx::uint_uint_table<unsigned~int,~unsigned~int,~mmx::trade_log_t>::read
each $1.first = from_big_endian($0.data) ;; {$0.size == 8}
each $1.second = from_big_endian(($0.data + 4)) ;; {$0.size == 8}
raise !{$0.size == 8}
exit {$0.size == 8}
exit {did $1.first = from_big_endian($0.data)}
exit {did $1.second = from_big_endian(($0.data + 4))}
at $1.first = from_big_endian($0.data)
at $1.second = from_big_endian(($0.data + 4))
fn mmx::uint_uint_table<unsigned~int,~unsigned~int,~mmx::trade_log_t>::write
each write_value(%shared_ptr<db_val_t>.data, to_big_endian($0.first))
each write_value((%shared_ptr<db_val_t>.data + 4), to_big_endian($0.second))
never throw …
exit {did write_value(%shared_ptr<db_val_t>.data, to_big_endian($0.first))}
exit {did write_value((%shared_ptr<db_val_t>.data + 4), to_big_endian($0.second))}
exit {ret = %shared_ptr<db_val_t>}
at write_value(%shared_ptr<db_val_t>.data, to_big_endian($0.first))
at write_value((%shared_ptr<db_val_t>.data + 4), to_big_endian($0.second))
