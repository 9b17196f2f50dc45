tus src/contract/PubKey.cpp src/contract/MultiSig.cpp src/solution/MultiSig.cpp src/solution/PubKey.cpp src/Contract.cpp src/signature_t.cpp src/pubkey_t.cpp src/Node_validate.cpp
fn mmx::contract::PubKey::validate
raise {is<solution::PubKey>($0)} ;; {$0} ;; !{@address == get_addr($0.pubkey)}
raise {is<solution::PubKey>($0)} ;; {$0} ;; {@address == get_addr($0.pubkey)} ;; !{verify($0.signature, $0.pubkey, $1)}
raise !{$0} | !{is<solution::PubKey>($0)} ;; {$0}
raise !{$0} | !{is<solution::PubKey>($0)} ;; !{$0}
exit {$0}
exit {@address == get_addr($0.pubkey)}
exit {is<solution::PubKey>($0)}
exit {verify($0.signature, $0.pubkey, $1)}
fn mmx::contract::PubKey::get_owner
never throw …
exit {ret = @address}
fn mmx::contract::MultiSig::validate
never break($0.solutions)
raise {is<solution::PubKey>($0)} ;; {$0} ;; !{1 == @num_required}
raise {is<solution::PubKey>($0)} ;; {$0} ;; {1 == @num_required} ;; {has(@owners, get_addr($0.pubkey))} ;; !{verify($0.signature, $0.pubkey, $1)}
raise {is<solution::PubKey>($0)} ;; {$0} ;; {1 == @num_required} ;; !{has(@owners, get_addr($0.pubkey))}
raise !{$0} | !{is<solution::PubKey>($0)} ;; {is<solution::MultiSig>($0)} ;; {$0} ;; {$2} ;; !{$0.num_required == @num_required}
raise !{$0} | !{is<solution::PubKey>($0)} ;; {is<solution::MultiSig>($0)} ;; {$0} ;; !{$2} | {$0.num_required == @num_required} ;; {$2} ;; !{has(@owners, elem($0.solutions).first)}
raise !{$0} | !{is<solution::PubKey>($0)} ;; {is<solution::MultiSig>($0)} ;; {$0} ;; !{$2} | {$0.num_required == @num_required} ;; !{$2} | {has(@owners, elem($0.solutions).first)} ;; {has(@owners, elem($0.solutions).first)} ;; !{elem($0.solutions).second} | !{is<solution::PubKey>(elem($0.solutions).second)} ;; {$2}
raise !{$0} | !{is<solution::PubKey>($0)} ;; {is<solution::MultiSig>($0)} ;; {$0} ;; !{$2} | {$0.num_required == @num_required} ;; !{$2} | {has(@owners, elem($0.solutions).first)} ;; {has(@owners, elem($0.solutions).first)} ;; {is<solution::PubKey>(elem($0.solutions).second)} ;; {elem($0.solutions).second} ;; !{elem($0.solutions).first == get_addr(elem($0.solutions).second.pubkey)}
raise !{$0} | !{is<solution::PubKey>($0)} ;; {is<solution::MultiSig>($0)} ;; {$0} ;; !{$2} | {$0.num_required == @num_required} ;; !{$2} | {has(@owners, elem($0.solutions).first)} ;; {has(@owners, elem($0.solutions).first)} ;; {is<solution::PubKey>(elem($0.solutions).second)} ;; {elem($0.solutions).second} ;; {elem($0.solutions).first == get_addr(elem($0.solutions).second.pubkey)} ;; !{verify(elem($0.solutions).second.signature, elem($0.solutions).second.pubkey, $1)}
raise !{$0} | !{is<solution::PubKey>($0)} ;; {is<solution::MultiSig>($0)} ;; {$0} ;; !{$2} | {$0.num_required == @num_required} ;; {total($0.solutions, ite((!{has(@owners, elem($0.solutions).first)} || (!{$2} && (!{elem($0.solutions).second} || !{is<solution::PubKey>(elem($0.solutions).second)}))), 0, 1)) < @num_required}
raise !{$0} | !{is<solution::PubKey>($0)} ;; !{$0} | !{is<solution::MultiSig>($0)} ;; {$0}
raise !{$0} | !{is<solution::PubKey>($0)} ;; !{$0} | !{is<solution::MultiSig>($0)} ;; !{$0}
exit {$0}
exit {is<solution::PubKey>($0)} | {is<solution::MultiSig>($0)}
exit !{is<solution::PubKey>($0)} | {1 == @num_required}
exit !{is<solution::PubKey>($0)} | {has(@owners, get_addr($0.pubkey))}
exit !{is<solution::PubKey>($0)} | {verify($0.signature, $0.pubkey, $1)}
exit {is<solution::PubKey>($0)} | !{$2} | {$0.num_required == @num_required}
exit {is<solution::PubKey>($0)} | !{$2} | {has(@owners, elem($0.solutions).first)}
exit {is<solution::PubKey>($0)} | !{has(@owners, elem($0.solutions).first)} | !{$2} | {is<solution::PubKey>(elem($0.solutions).second)}
exit {is<solution::PubKey>($0)} | !{has(@owners, elem($0.solutions).first)} | !{is<solution::PubKey>(elem($0.solutions).second)} | !{elem($0.solutions).second} | {elem($0.solutions).first == get_addr(elem($0.solutions).second.pubkey)}
exit {is<solution::PubKey>($0)} | !{has(@owners, elem($0.solutions).first)} | !{is<solution::PubKey>(elem($0.solutions).second)} | !{elem($0.solutions).second} | {verify(elem($0.solutions).second.signature, elem($0.solutions).second.pubkey, $1)}
exit {is<solution::PubKey>($0)} | !{total($0.solutions, ite((!{has(@owners, elem($0.solutions).first)} || (!{$2} && (!{elem($0.solutions).second} || !{is<solution::PubKey>(elem($0.solutions).second)}))), 0, 1)) < @num_required}
fn mmx::contract::MultiSig::is_valid
false !{is_valid()} | !{@num_required} | {size(@owners) < @num_required}
never throw …
true {is_valid()}
true {@num_required}
true !{size(@owners) < @num_required}
fn mmx::Contract::validate
exit {never returns}
never return ‥
fn mmx::signature_t::verify
each at(g_sig_cache, (ctor(Hash64, crc64(), hash_salt) % size(g_sig_cache))) = make_tuple($1, $0, this) ;; !{at(g_sig_cache, (ctor(Hash64, crc64(), hash_salt) % size(g_sig_cache))) == make_tuple($1, $0, this)} ;; {secp256k1_ecdsa_verify(g_secp256k1, to_secp256k1(), data($1), to_secp256k1($0))}
false !{at(g_sig_cache, …) == make_tuple($1, $0, this)}
false !{secp256k1_ecdsa_verify(g_secp256k1, to_secp256k1(), data($1), to_secp256k1($0))}
never throw …
true {at(g_sig_cache, …) == make_tuple($1, $0, this)} | {secp256k1_ecdsa_verify(g_secp256k1, to_secp256k1(), data($1), to_secp256k1($0))}
exit {did lock_guard(g_mutex)}
at at(g_sig_cache, …) = make_tuple($1, $0, this) ;; {did lock_guard(g_mutex)} ;; {secp256k1_ecdsa_verify(g_secp256k1, to_secp256k1(), data($1), to_secp256k1($0))}
only at(g_sig_cache, …) = … ;; at(g_sig_cache, …) = make_tuple($1, $0, this)
fn mmx::signature_t::to_secp256k1
each secp256k1_ecdsa_signature_parse_compact(g_secp256k1, %secp256k1_ecdsa_signature, data())
raise !{secp256k1_ecdsa_signature_parse_compact(g_secp256k1, %secp256k1_ecdsa_signature, data())}
exit {ret = %secp256k1_ecdsa_signature}
exit {secp256k1_ecdsa_signature_parse_compact(g_secp256k1, %secp256k1_ecdsa_signature, data())}
fn mmx::signature_t::sign
each secp256k1_ecdsa_sign(g_secp256k1, %secp256k1_ecdsa_signature, data($1), data($0), 0, 0)
raise !{secp256k1_ecdsa_sign(g_secp256k1, %secp256k1_ecdsa_signature, data($1), data($0), 0, 0)}
exit {ret = %secp256k1_ecdsa_signature}
exit {secp256k1_ecdsa_sign(g_secp256k1, %secp256k1_ecdsa_signature, data($1), data($0), 0, 0)}
fn mmx::pubkey_t::to_secp256k1
each secp256k1_ec_pubkey_parse(g_secp256k1, %secp256k1_pubkey, data(), size())
raise !{secp256k1_ec_pubkey_parse(g_secp256k1, %secp256k1_pubkey, data(), size())}
exit {ret = %secp256k1_pubkey}
exit {secp256k1_ec_pubkey_parse(g_secp256k1, %secp256k1_pubkey, data(), size())}
fn mmx::pubkey_t::get_addr
never throw …
exit {ret = ctor(hash_t, @bytes)}
