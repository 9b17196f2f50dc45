tus src/Wallet.cpp
fn mmx::ECDSA_Wallet::ECDSA_Wallet sig=(const~mmx::hash_t~&,~const~mmx::account_t~&,~std::shared_ptr<const~mmx::ChainParams>)
each create_farmer_key() ;; !{$0 == ctor(hash_t)}
raise {$0 == ctor(hash_t)}
exit !{$0 == ctor(hash_t)}
exit {did @config := $1}
exit {did @default_expire := 100}
exit {did @height := 0}
exit {did @last_update := 0}
exit {did @params := $2}
exit {did @seed_value := $0}
exit {did create_farmer_key()}
at @config := $1
at @default_expire := 100
at @height := 0
at @last_update := 0
at @seed_value := $0
at @params := $2
at create_farmer_key()
fn mmx::ECDSA_Wallet::ECDSA_Wallet sig=(const~mmx::hash_t~&,~const~std::vector<mmx::addr_t,~std::allocator<mmx::addr_t>>~&,~const~mmx::account_t~&,~std::shared_ptr<const~mmx::ChainParams>)
at at(@index_map, elem($1)) = fold(0, (~ + 1), $1) ;; !{$0 == ctor(hash_t)}
each create_farmer_key() ;; !{$0 == ctor(hash_t)}
each at(@index_map, elem($1)) = fold(0, (~ + 1), $1) ;; !{$0 == ctor(hash_t)}
each @addresses = $1 ;; !{$0 == ctor(hash_t)}
never break($1)
raise {$0 == ctor(hash_t)}
value fold(0, (~ + 1), $1)
exit !{$0 == ctor(hash_t)}
exit {did @addresses = $1}
exit {did @config := $2}
exit {did @default_expire := 100}
exit {did @height := 0}
exit {did @last_update := 0}
exit {did @params := $3}
exit {did @seed_value := $0}
exit {did at(@index_map, elem($1)) = fold(0, (~ + 1), $1)}
exit {did create_farmer_key()}
at @config := $2
at @default_expire := 100
at @height := 0
at @last_update := 0
at @seed_value := $0
at @params := $3
at create_farmer_key()
at at(@index_map, elem($1)) = fold(0, (~ + 1), $1)
at @addresses = $1
fn mmx::ECDSA_Wallet::lock
each elem(@keypairs).first = ctor(skey_t)
each elem(@keypairs).second = ctor(pubkey_t)
each clear(@keypairs)
each clear(@keypair_map)
never break(@keypairs)
never throw …
exit {did clear(@keypair_map)}
exit {did clear(@keypairs)}
exit {did elem(@keypairs).first = ctor(skey_t)}
exit {did elem(@keypairs).second = ctor(pubkey_t)}
at elem(@keypairs).first = ctor(skey_t)
at elem(@keypairs).second = ctor(pubkey_t)
at clear(@keypairs)
at clear(@keypair_map)
fn mmx::ECDSA_Wallet::unlock sig=()
each unlock(ctor(string))
never throw …
exit {did unlock(ctor(string))}
at unlock(ctor(string))
fn mmx::ECDSA_Wallet::unlock sig=(const~std::basic_string<char,~std::char_traits<char>,~std::allocator<char>>~&)
each unlock(ctor(hash_t, ("MMX/seed/" ++ $0)))
raise {@config.with_passphrase} ;; !{@config.finger_print == get_finger_print(@seed_value, $0)}
exit {did unlock(ctor(hash_t, ("MMX/seed/" ++ $0)))}
exit !{@config.with_passphrase} | {@config.finger_print == get_finger_print(@seed_value, $0)}
at unlock(ctor(hash_t, ("MMX/seed/" ++ $0)))
fn mmx::ECDSA_Wallet::unlock sig=(const~mmx::hash_t~&)
never break(loop)
each %pair<skey_t,pubkey_t>.first = ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first)
each %pair<skey_t,pubkey_t>.second = ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first)
each resize(@keypairs, @config.num_addresses) ;; !{idx(@config.num_addresses)} ;; !{at(@addresses, 0)} | {at(@addresses, 0) == get_addr(ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first))} | {empty(@addresses)}
each resize(@addresses, @config.num_addresses) ;; !{idx(@config.num_addresses)} ;; !{at(@addresses, 0)} | {at(@addresses, 0) == get_addr(ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first))} | {empty(@addresses)}
each at(@keypairs, idx(@config.num_addresses)) = %pair<skey_t,pubkey_t>
each at(@keypair_map, get_addr(ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first))) = idx(@config.num_addresses)
each at(@addresses, idx(@config.num_addresses)) = get_addr(ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first))
each at(@index_map, get_addr(ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first))) = idx(@config.num_addresses)
raise !{idx(@config.num_addresses)} ;; !{empty(@addresses)} ;; {at(@addresses, 0)} ;; !{at(@addresses, 0) == get_addr(ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first))}
exit {did %pair<skey_t,pubkey_t>.first = ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first)}
exit {did %pair<skey_t,pubkey_t>.second = ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first)}
exit {did at(@addresses, idx(@config.num_addresses)) = get_addr(ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first))}
exit {did at(@index_map, get_addr(ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first))) = idx(@config.num_addresses)}
exit {did at(@keypair_map, get_addr(ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first))) = idx(@config.num_addresses)}
exit {did at(@keypairs, idx(@config.num_addresses)) = %pair<skey_t,pubkey_t>}
exit {did resize(@addresses, @config.num_addresses)} | {idx(@config.num_addresses)}
exit {did resize(@keypairs, @config.num_addresses)} | {idx(@config.num_addresses)}
exit !{at(@addresses, 0)} | {at(@addresses, 0) == get_addr(ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first))} | {empty(@addresses)} | {idx(@config.num_addresses)}
at %pair<skey_t,pubkey_t>.first = ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first)
at %pair<skey_t,pubkey_t>.second = ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first)
at resize(@keypairs, @config.num_addresses) ;; !{idx(@config.num_addresses)} ;; !{at(@addresses, 0)} | {at(@addresses, 0) == get_addr(ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first))} | {empty(@addresses)}
at resize(@addresses, @config.num_addresses) ;; !{idx(@config.num_addresses)} ;; !{at(@addresses, 0)} | {at(@addresses, 0) == get_addr(ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first))} | {empty(@addresses)}
at at(@keypairs, idx(@config.num_addresses)) = %pair<skey_t,pubkey_t>
at at(@keypair_map, get_addr(ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first))) = idx(@config.num_addresses)
at at(@addresses, idx(@config.num_addresses)) = get_addr(ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first))
at at(@index_map, get_addr(ctor(skey_t, hmac_sha512_n(hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).first, hmac_sha512_n(hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).first, hmac_sha512_n(kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, $0, u32(KDF_ITERS)).second, 11337).second, @config.index).second, u32(idx(@config.num_addresses))).first))) = idx(@config.num_addresses)
fn mmx::ECDSA_Wallet::is_locked
never throw …
true {empty(@addresses)} | {size(@keypairs) < size(@addresses)}
false !{empty(@addresses)}
false !{size(@keypairs) < size(@addresses)}
fn mmx::ECDSA_Wallet::get_skey
never throw …
exit {ret = at(@keypairs, $0).first}
fn mmx::ECDSA_Wallet::get_pubkey
never throw …
exit {ret = at(@keypairs, $0).second}
fn mmx::ECDSA_Wallet::get_keypair
never throw …
exit {ret = at(@keypairs, $0)}
fn mmx::ECDSA_Wallet::get_farmer_key
never throw …
exit {ret = @farmer_key}
fn mmx::ECDSA_Wallet::find_keypair
never throw …
exit !{has(@keypair_map, $0)} | {ret = at(@keypairs, at(@keypair_map, $0))}
exit {has(@keypair_map, $0)} | {ret = 0}
fn mmx::ECDSA_Wallet::find_address sig=(const~unsigned~int)~const
never throw …
exit !{$0 < size(@addresses)} | {ret = at(@addresses, $0)}
exit {$0 < size(@addresses)} | {ret = 0}
fn mmx::ECDSA_Wallet::find_address sig=(const~mmx::addr_t~&)~const
never throw …
exit !{has(@index_map, $0)} | {ret = at(@index_map, $0)}
exit {has(@index_map, $0)} | {ret = -1}
fn mmx::ECDSA_Wallet::get_address
raise !{$0 < size(@addresses)}
exit {$0 < size(@addresses)}
exit {ret = at(@addresses, $0)}
fn mmx::ECDSA_Wallet::get_all_addresses
never throw …
exit {ret = @addresses}
fn mmx::ECDSA_Wallet::find_address_throw
raise !{-1 < find_address($0)}
exit {-1 < find_address($0)}
exit {ret = find_address($0)}
fn mmx::ECDSA_Wallet::sign_msg
each %shared_ptr<solution::PubKey>.pubkey = find_keypair($0).second ;; !{is_locked()} ;; {find_keypair($0)}
each %shared_ptr<solution::PubKey>.signature = sign(find_keypair($0).first, $1) ;; !{is_locked()} ;; {find_keypair($0)}
raise {is_locked()}
exit !{is_locked()}
exit !{find_keypair($0)} | {ret = %shared_ptr<solution::PubKey>}
exit {find_keypair($0)} | {ret = 0}
exit !{find_keypair($0)} | {did %shared_ptr<solution::PubKey>.pubkey = find_keypair($0).second}
exit !{find_keypair($0)} | {did %shared_ptr<solution::PubKey>.signature = sign(find_keypair($0).first, $1)}
at %shared_ptr<solution::PubKey>.pubkey = find_keypair($0).second ;; {find_keypair($0)}
at %shared_ptr<solution::PubKey>.signature = sign(find_keypair($0).first, $1) ;; {find_keypair($0)}
fn mmx::ECDSA_Wallet::sign_off
each unlock($1.passphrase) ;; {is_locked()} ;; {$1.passphrase}
each $0.nonce = $1.nonce ;; {$1.nonce}
each $0.network = @params.network
each finalize($0)
each at(%unordered_map<addr_t,unsignedint>, $0.sender) = u32(size($0.solutions)) ;; {$0.sender} ;; {empty($0.solutions)} ;; !{has(%unordered_map<addr_t,unsignedint>, $0.sender)} ;; {sign_msg($0.sender, $0.id, $1)}
each push_back($0.solutions, sign_msg($0.sender, $0.id, $1)) ;; {$0.sender} ;; {empty($0.solutions)} ;; !{has(%unordered_map<addr_t,unsignedint>, $0.sender)} ;; {sign_msg($0.sender, $0.id, $1)}
each elem($0.inputs).flags = u8((IS_EXEC | elem($0.inputs).flags)) ;; {NO_SOLUTION == elem($0.inputs).solution} ;; {has($1.owner_map, elem($0.inputs).address)}
each at(%unordered_map<addr_t,unsignedint>, ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address)) = u32(size($0.solutions)) ;; {NO_SOLUTION == elem($0.inputs).solution} ;; !{has(%unordered_map<addr_t,unsignedint>, ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address))} ;; {sign_msg(ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address), $0.id, $1)}
each push_back($0.solutions, sign_msg(ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address), $0.id, $1)) ;; {NO_SOLUTION == elem($0.inputs).solution} ;; !{has(%unordered_map<addr_t,unsignedint>, ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address))} ;; {sign_msg(ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address), $0.id, $1)}
each elem($0.inputs).solution = ite({has(%unordered_map<addr_t,unsignedint>, ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address))}, u16(at(%unordered_map<addr_t,unsignedint>, ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address))), ite((!{has(%unordered_map<addr_t,unsignedint>, ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address))} && {sign_msg(ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address), $0.id, $1)}), u16(size($0.solutions)), 65535)) ;; {NO_SOLUTION == elem($0.inputs).solution}
each at(%unordered_map<addr_t,unsignedint>, ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user)) = u32(size($0.solutions)) ;; {NO_SOLUTION == elem($0.execute).solution} ;; !{has(%unordered_map<addr_t,unsignedint>, ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user))} ;; {sign_msg(ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user), $0.id, $1)}
each push_back($0.solutions, sign_msg(ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user), $0.id, $1)) ;; {NO_SOLUTION == elem($0.execute).solution} ;; !{has(%unordered_map<addr_t,unsignedint>, ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user))} ;; {sign_msg(ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user), $0.id, $1)}
each elem($0.execute) = clone(elem($0.execute)) ;; {NO_SOLUTION == elem($0.execute).solution}
each $0.static_cost = u32(calc_cost($0, @params))
each $0.content_hash = calc_hash($0, true)
never break($0.inputs)
never break($0.execute)
raise {is_locked()} ;; !{$1.passphrase}
rethrow !{is_locked()} | {did lock()}
exit {did $0.content_hash = calc_hash($0, true)}
exit {did $0.network = @params.network}
exit {did $0.static_cost = u32(calc_cost($0, @params))}
exit {did finalize($0)}
exit !{$1.nonce} | {did $0.nonce = $1.nonce}
exit !{NO_SOLUTION == elem($0.inputs).solution} | {did elem($0.inputs).solution = ite({has(%unordered_map<addr_t,unsignedint>, ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address))}, u16(at(%unordered_map<addr_t,unsignedint>, ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address))), ite((!{has(%unordered_map<addr_t,unsignedint>, ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address))} && {sign_msg(ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address), $0.id, $1)}), u16(size($0.solutions)), 65535))}
exit !{is_locked()} | {$1.passphrase}
exit !{is_locked()} | {did lock()}
exit !{is_locked()} | {did unlock($1.passphrase)}
exit !{NO_SOLUTION == elem($0.execute).solution} | !{elem($0.execute).user} | {did elem($0.execute) = clone(elem($0.execute))}
exit !{NO_SOLUTION == elem($0.execute).solution} | {did elem($0.execute) = clone(elem($0.execute))} | {elem($0.execute)}
exit !{NO_SOLUTION == elem($0.execute).solution} | {did elem($0.execute) = clone(elem($0.execute))} | {is<operation::Execute>(elem($0.execute))}
exit !{NO_SOLUTION == elem($0.inputs).solution} | !{has($1.owner_map, elem($0.inputs).address)} | {did elem($0.inputs).flags = u8((IS_EXEC | elem($0.inputs).flags))}
exit !{NO_SOLUTION == elem($0.inputs).solution} | !{sign_msg(ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address), $0.id, $1)} | {did at(%unordered_map<addr_t,unsignedint>, ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address)) = u32(size($0.solutions))} | {has(%unordered_map<addr_t,unsignedint>, ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address))}
exit !{NO_SOLUTION == elem($0.inputs).solution} | !{sign_msg(ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address), $0.id, $1)} | {did push_back($0.solutions, sign_msg(ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address), $0.id, $1))} | {has(%unordered_map<addr_t,unsignedint>, ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address))}
exit !{$0.sender} | !{empty($0.solutions)} | !{sign_msg($0.sender, $0.id, $1)} | {did at(%unordered_map<addr_t,unsignedint>, $0.sender) = u32(size($0.solutions))} | {has(%unordered_map<addr_t,unsignedint>, $0.sender)}
exit !{$0.sender} | !{empty($0.solutions)} | !{sign_msg($0.sender, $0.id, $1)} | {did push_back($0.solutions, sign_msg($0.sender, $0.id, $1))} | {has(%unordered_map<addr_t,unsignedint>, $0.sender)}
exit !{NO_SOLUTION == elem($0.execute).solution} | !{elem($0.execute).user} | !{sign_msg(ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user), $0.id, $1)} | {did at(%unordered_map<addr_t,unsignedint>, ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user)) = u32(size($0.solutions))} | {has(%unordered_map<addr_t,unsignedint>, ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user))}
exit !{NO_SOLUTION == elem($0.execute).solution} | !{elem($0.execute).user} | !{sign_msg(ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user), $0.id, $1)} | {did push_back($0.solutions, sign_msg(ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user), $0.id, $1))} | {has(%unordered_map<addr_t,unsignedint>, ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user))}
exit !{NO_SOLUTION == elem($0.execute).solution} | !{sign_msg(ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user), $0.id, $1)} | {did at(%unordered_map<addr_t,unsignedint>, ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user)) = u32(size($0.solutions))} | {elem($0.execute)} | {has(%unordered_map<addr_t,unsignedint>, ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user))}
exit !{NO_SOLUTION == elem($0.execute).solution} | !{sign_msg(ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user), $0.id, $1)} | {did at(%unordered_map<addr_t,unsignedint>, ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user)) = u32(size($0.solutions))} | {has(%unordered_map<addr_t,unsignedint>, ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user))} | {is<operation::Execute>(elem($0.execute))}
exit !{NO_SOLUTION == elem($0.execute).solution} | !{sign_msg(ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user), $0.id, $1)} | {did push_back($0.solutions, sign_msg(ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user), $0.id, $1))} | {elem($0.execute)} | {has(%unordered_map<addr_t,unsignedint>, ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user))}
exit !{NO_SOLUTION == elem($0.execute).solution} | !{sign_msg(ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user), $0.id, $1)} | {did push_back($0.solutions, sign_msg(ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user), $0.id, $1))} | {has(%unordered_map<addr_t,unsignedint>, ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user))} | {is<operation::Execute>(elem($0.execute))}
at unlock($1.passphrase) ;; {is_locked()} ;; {$1.passphrase}
at $0.nonce = $1.nonce ;; {$1.nonce}
at $0.network = @params.network
at finalize($0)
at at(%unordered_map<addr_t,unsignedint>, $0.sender) = u32(size($0.solutions)) ;; {$0.sender} ;; {empty($0.solutions)} ;; !{has(%unordered_map<addr_t,unsignedint>, $0.sender)} ;; {sign_msg($0.sender, $0.id, $1)}
at push_back($0.solutions, sign_msg($0.sender, $0.id, $1)) ;; {$0.sender} ;; {empty($0.solutions)} ;; !{has(%unordered_map<addr_t,unsignedint>, $0.sender)} ;; {sign_msg($0.sender, $0.id, $1)}
at elem($0.inputs).flags = u8((IS_EXEC | elem($0.inputs).flags)) ;; {NO_SOLUTION == elem($0.inputs).solution} ;; {has($1.owner_map, elem($0.inputs).address)}
at at(%unordered_map<addr_t,unsignedint>, ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address)) = u32(size($0.solutions)) ;; {NO_SOLUTION == elem($0.inputs).solution} ;; !{has(%unordered_map<addr_t,unsignedint>, ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address))} ;; {sign_msg(ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address), $0.id, $1)}
at push_back($0.solutions, sign_msg(ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address), $0.id, $1)) ;; {NO_SOLUTION == elem($0.inputs).solution} ;; !{has(%unordered_map<addr_t,unsignedint>, ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address))} ;; {sign_msg(ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address), $0.id, $1)}
at elem($0.inputs).solution = ite({has(%unordered_map<addr_t,unsignedint>, ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address))}, u16(at(%unordered_map<addr_t,unsignedint>, ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address))), ite((!{has(%unordered_map<addr_t,unsignedint>, ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address))} && {sign_msg(ite({has($1.owner_map, elem($0.inputs).address)}, at($1.owner_map, elem($0.inputs).address), elem($0.inputs).address), $0.id, $1)}), u16(size($0.solutions)), 65535)) ;; {NO_SOLUTION == elem($0.inputs).solution}
at at(%unordered_map<addr_t,unsignedint>, ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user)) = u32(size($0.solutions)) ;; {NO_SOLUTION == elem($0.execute).solution} ;; !{has(%unordered_map<addr_t,unsignedint>, ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user))} ;; {sign_msg(ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user), $0.id, $1)} ;; !{elem($0.execute)} | !{is<operation::Execute>(elem($0.execute))} | {elem($0.execute).user}
at push_back($0.solutions, sign_msg(ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user), $0.id, $1)) ;; {NO_SOLUTION == elem($0.execute).solution} ;; !{has(%unordered_map<addr_t,unsignedint>, ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user))} ;; {sign_msg(ite((!{elem($0.execute)} || !{is<operation::Execute>(elem($0.execute))}), ite({has($1.owner_map, elem($0.execute).address)}, at($1.owner_map, elem($0.execute).address), elem($0.execute).address), elem($0.execute).user), $0.id, $1)} ;; !{elem($0.execute)} | !{is<operation::Execute>(elem($0.execute))} | {elem($0.execute).user}
at elem($0.execute) = clone(elem($0.execute)) ;; {NO_SOLUTION == elem($0.execute).solution} ;; !{elem($0.execute)} | !{is<operation::Execute>(elem($0.execute))} | {elem($0.execute).user}
at $0.static_cost = u32(calc_cost($0, @params))
at $0.content_hash = calc_hash($0, true)
at lock() ;; {is_locked()} ;; {$1.passphrase}
fn mmx::ECDSA_Wallet::create_farmer_key
each @farmer_key.first = ctor(skey_t, hmac_sha512_n(kdf_hmac_sha512(@seed_value, ctor(hash_t, "MMX/farmer_keys"), u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, ctor(hash_t, "MMX/farmer_keys"), u32(KDF_ITERS)).second, 0).first)
each @farmer_key.second = ctor(skey_t, hmac_sha512_n(kdf_hmac_sha512(@seed_value, ctor(hash_t, "MMX/farmer_keys"), u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, ctor(hash_t, "MMX/farmer_keys"), u32(KDF_ITERS)).second, 0).first)
never throw …
exit {did @farmer_key.first = ctor(skey_t, hmac_sha512_n(kdf_hmac_sha512(@seed_value, ctor(hash_t, "MMX/farmer_keys"), u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, ctor(hash_t, "MMX/farmer_keys"), u32(KDF_ITERS)).second, 0).first)}
exit {did @farmer_key.second = ctor(skey_t, hmac_sha512_n(kdf_hmac_sha512(@seed_value, ctor(hash_t, "MMX/farmer_keys"), u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, ctor(hash_t, "MMX/farmer_keys"), u32(KDF_ITERS)).second, 0).first)}
at @farmer_key.first = ctor(skey_t, hmac_sha512_n(kdf_hmac_sha512(@seed_value, ctor(hash_t, "MMX/farmer_keys"), u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, ctor(hash_t, "MMX/farmer_keys"), u32(KDF_ITERS)).second, 0).first)
at @farmer_key.second = ctor(skey_t, hmac_sha512_n(kdf_hmac_sha512(@seed_value, ctor(hash_t, "MMX/farmer_keys"), u32(KDF_ITERS)).first, kdf_hmac_sha512(@seed_value, ctor(hash_t, "MMX/farmer_keys"), u32(KDF_ITERS)).second, 0).first)
fn mmx::Wallet::get_wallet
raise !{$0 < size(@wallets)}
raise {$0 < size(@wallets)} ;; !{at(@wallets, $0)}
exit {$0 < size(@wallets)}
exit {at(@wallets, $0)}
exit {ret = at(@wallets, $0)}
fn mmx::Wallet::unlock
each unlock(get_wallet($0), $1)
each stop(lock(at(@lock_timers, $0))) ;; {get_wallet($0).config.with_passphrase} ;; {0 < @lock_timeout_sec} ;; {lock(at(@lock_timers, $0))}
each set_timeout_millis((1000 * @lock_timeout_sec), lambda) ;; {get_wallet($0).config.with_passphrase} ;; {0 < @lock_timeout_sec}
each erase(@lock_timers, $0) ;; {get_wallet($0).config.with_passphrase} ;; {0 < @lock_timeout_sec}
each at(@lock_timers, $0) = set_timeout_millis((1000 * @lock_timeout_sec), lambda) ;; {get_wallet($0).config.with_passphrase} ;; {0 < @lock_timeout_sec}
each %shared_ptr<WalletFile>.addresses = get_all_addresses(get_wallet($0)) ;; {get_wallet($0).config.with_passphrase}
each write_to_file((@database_path ++ get_info_file_name(get_wallet($0).config)), %shared_ptr<WalletFile>) ;; {get_wallet($0).config.with_passphrase}
never throw …
exit {did unlock(get_wallet($0), $1)}
exit !{0 < @lock_timeout_sec} | !{get_wallet($0).config.with_passphrase} | {did at(@lock_timers, $0) = set_timeout_millis((1000 * @lock_timeout_sec), lambda)}
exit !{0 < @lock_timeout_sec} | !{get_wallet($0).config.with_passphrase} | {did set_timeout_millis((1000 * @lock_timeout_sec), lambda)}
exit !{0 < @lock_timeout_sec} | !{get_wallet($0).config.with_passphrase} | !{lock(at(@lock_timers, $0))} | {did stop(lock(at(@lock_timers, $0)))}
at unlock(get_wallet($0), $1)
at stop(lock(at(@lock_timers, $0))) ;; {get_wallet($0).config.with_passphrase} ;; {0 < @lock_timeout_sec} ;; {lock(at(@lock_timers, $0))}
at set_timeout_millis((1000 * @lock_timeout_sec), lambda) ;; {get_wallet($0).config.with_passphrase} ;; {0 < @lock_timeout_sec}
at lock(get_wallet($0)) ;; {get_wallet($0).config.with_passphrase} ;; {0 < @lock_timeout_sec}
at erase(@lock_timers, $0) ;; {get_wallet($0).config.with_passphrase} ;; {0 < @lock_timeout_sec}
at at(@lock_timers, $0) = set_timeout_millis((1000 * @lock_timeout_sec), lambda) ;; {get_wallet($0).config.with_passphrase} ;; {0 < @lock_timeout_sec}
at %shared_ptr<WalletFile>.addresses = get_all_addresses(get_wallet($0)) ;; {get_wallet($0).config.with_passphrase}
at write_to_file((@database_path ++ get_info_file_name(get_wallet($0).config)), %shared_ptr<WalletFile>) ;; {get_wallet($0).config.with_passphrase}
fn mmx::Wallet::lock
never throw …
exit {did lock(get_wallet($0))}
at lock(get_wallet($0))
fn mmx::Wallet::is_locked
never throw …
true {is_locked(get_wallet($0))}
false !{is_locked(get_wallet($0))}
fn mmx::Wallet::add_account
each resize(@wallets, ($0 + 1)) ;; !{$0 < size(@wallets)}
each at(@wallets, $0) = new(ECDSA_Wallet, read_from_file((@storage_path ++ $1.key_file)).seed_value, ite({read_from_file((@database_path ++ get_info_file_name($1)))}, read_from_file((@database_path ++ get_info_file_name($1))).addresses, ctor(vector<addr_t>)), $1, @params) ;; {read_from_file((@storage_path ++ $1.key_file))} ;; {$1.with_passphrase} ;; !{$2}
each $1.finger_print = get_finger_print(read_from_file((@storage_path ++ $1.key_file)).seed_value, $2) ;; {read_from_file((@storage_path ++ $1.key_file))} ;; !{$1.with_passphrase} | {$2} ;; {empty($1.finger_print)}
each at(@wallets, $0) = new(ECDSA_Wallet, read_from_file((@storage_path ++ $1.key_file)).seed_value, $1, @params) ;; {read_from_file((@storage_path ++ $1.key_file))} ;; !{$1.with_passphrase} | {$2}
each unlock($0, $2) ;; {read_from_file((@storage_path ++ $1.key_file))} ;; !{$1.with_passphrase} | {$2} ;; {$2}
each unlock($0, "") ;; {read_from_file((@storage_path ++ $1.key_file))} ;; !{$1.with_passphrase} | {$2} ;; !{$2}
each ite((!{$1.with_passphrase} || {$2}), new(ECDSA_Wallet, read_from_file((@storage_path ++ $1.key_file)).seed_value, $1, @params), new(ECDSA_Wallet, read_from_file((@storage_path ++ $1.key_file)).seed_value, ite({read_from_file((@database_path ++ get_info_file_name($1)))}, read_from_file((@database_path ++ get_info_file_name($1))).addresses, ctor(vector<addr_t>)), $1, @params)).default_expire = @default_expire ;; {read_from_file((@storage_path ++ $1.key_file))}
each permissions(ctor(filesystem::path, (@storage_path ++ $1.key_file), path::auto_format), (perms::owner_read | perms::owner_write), perm_options::replace) ;; {read_from_file((@storage_path ++ $1.key_file))}
raise {$0 < size(@wallets)} ;; {at(@wallets, $0)}
raise !{read_from_file((@storage_path ++ $1.key_file))}
exit {did ite((!{$1.with_passphrase} || {$2}), new(ECDSA_Wallet, read_from_file((@storage_path ++ $1.key_file)).seed_value, $1, @params), new(ECDSA_Wallet, read_from_file((@storage_path ++ $1.key_file)).seed_value, ite({read_from_file((@database_path ++ get_info_file_name($1)))}, read_from_file((@database_path ++ get_info_file_name($1))).addresses, ctor(vector<addr_t>)), $1, @params)).default_expire = @default_expire}
exit {did permissions(ctor(filesystem::path, (@storage_path ++ $1.key_file), path::auto_format), (perms::owner_read | perms::owner_write), perm_options::replace)}
exit {read_from_file((@storage_path ++ $1.key_file))}
exit !{$0 < size(@wallets)} | !{at(@wallets, $0)}
exit !{$2} | {did at(@wallets, $0) = new(ECDSA_Wallet, read_from_file((@storage_path ++ $1.key_file)).seed_value, $1, @params)}
exit !{$2} | {did lock(new(ECDSA_Wallet, read_from_file((@storage_path ++ $1.key_file)).seed_value, $1, @params))}
exit !{$2} | {did unlock($0, $2)}
exit {$0 < size(@wallets)} | {did resize(@wallets, ($0 + 1))}
exit {$1.with_passphrase} | {did at(@wallets, $0) = new(ECDSA_Wallet, read_from_file((@storage_path ++ $1.key_file)).seed_value, $1, @params)}
exit !{$1.with_passphrase} | {$2} | {did at(@wallets, $0) = new(ECDSA_Wallet, read_from_file((@storage_path ++ $1.key_file)).seed_value, ite({read_from_file((@database_path ++ get_info_file_name($1)))}, read_from_file((@database_path ++ get_info_file_name($1))).addresses, ctor(vector<addr_t>)), $1, @params)}
exit !{$2} | !{empty($1.finger_print)} | {did $1.finger_print = get_finger_print(read_from_file((@storage_path ++ $1.key_file)).seed_value, $2)}
exit !{empty($1.finger_print)} | {$1.with_passphrase} | {did $1.finger_print = get_finger_print(read_from_file((@storage_path ++ $1.key_file)).seed_value, $2)}
exit {$1.with_passphrase} | {$2} | {did unlock($0, "")}
at resize(@wallets, ($0 + 1)) ;; !{$0 < size(@wallets)}
at at(@wallets, $0) = new(ECDSA_Wallet, read_from_file((@storage_path ++ $1.key_file)).seed_value, ite({read_from_file((@database_path ++ get_info_file_name($1)))}, read_from_file((@database_path ++ get_info_file_name($1))).addresses, ctor(vector<addr_t>)), $1, @params) ;; {$1.with_passphrase} ;; !{$2}
at $1.finger_print = get_finger_print(read_from_file((@storage_path ++ $1.key_file)).seed_value, $2) ;; !{$1.with_passphrase} | {$2} ;; {empty($1.finger_print)}
at at(@wallets, $0) = new(ECDSA_Wallet, read_from_file((@storage_path ++ $1.key_file)).seed_value, $1, @params) ;; !{$1.with_passphrase} | {$2}
at unlock($0, $2) ;; !{$1.with_passphrase} | {$2} ;; {$2}
at lock(new(ECDSA_Wallet, read_from_file((@storage_path ++ $1.key_file)).seed_value, $1, @params)) ;; !{$1.with_passphrase} | {$2} ;; {$2}
at unlock($0, "") ;; !{$1.with_passphrase} | {$2} ;; !{$2} ;; !{$1.with_passphrase}
at ite((!{$1.with_passphrase} || {$2}), new(ECDSA_Wallet, read_from_file((@storage_path ++ $1.key_file)).seed_value, $1, @params), new(ECDSA_Wallet, read_from_file((@storage_path ++ $1.key_file)).seed_value, ite({read_from_file((@database_path ++ get_info_file_name($1)))}, read_from_file((@database_path ++ get_info_file_name($1))).addresses, ctor(vector<addr_t>)), $1, @params)).default_expire = @default_expire
at permissions(ctor(filesystem::path, (@storage_path ++ $1.key_file), path::auto_format), (perms::owner_read | perms::owner_write), perm_options::replace)
fn mmx::Wallet::create_account
each add_account(u32((@max_key_files + size(@accounts))), $0, $1) ;; {$0.num_addresses} ;; !{@max_addresses < $0.num_addresses}
each push_back(@accounts, $0) ;; {$0.num_addresses} ;; !{@max_addresses < $0.num_addresses}
each at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "accounts+") = @accounts ;; {$0.num_addresses} ;; !{@max_addresses < $0.num_addresses}
each write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json"))) ;; {$0.num_addresses} ;; !{@max_addresses < $0.num_addresses}
raise !{$0.num_addresses}
raise {$0.num_addresses} ;; {@max_addresses < $0.num_addresses}
exit !{@max_addresses < $0.num_addresses}
exit {$0.num_addresses}
exit {did add_account(u32((@max_key_files + size(@accounts))), $0, $1)}
exit {did at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "accounts+") = @accounts}
exit {did push_back(@accounts, $0)}
exit {did write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json")))}
at add_account(u32((@max_key_files + size(@accounts))), $0, $1)
at push_back(@accounts, $0)
at at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "accounts+") = @accounts
at write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json")))
fn mmx::Wallet::create_wallet
each %shared_ptr<KeyFile>.seed_value = words_to_seed(string_to_words($1), wordlist_en) ;; {$1}
each %shared_ptr<KeyFile>.seed_value = secure_random() ;; !{$1}
each %shared_ptr<KeyFile>.finger_print = get_finger_print(ite({$1}, words_to_seed(string_to_words($1), wordlist_en), secure_random()), $2) ;; {$2}
each import_wallet($0, %shared_ptr<KeyFile>, $2)
never throw …
exit {did import_wallet($0, %shared_ptr<KeyFile>, $2)}
exit !{$1} | {did %shared_ptr<KeyFile>.seed_value = words_to_seed(string_to_words($1), wordlist_en)}
exit !{$2} | {did %shared_ptr<KeyFile>.finger_print = get_finger_print(ite({$1}, words_to_seed(string_to_words($1), wordlist_en), secure_random()), $2)}
exit {$1} | {did %shared_ptr<KeyFile>.seed_value = secure_random()}
at %shared_ptr<KeyFile>.seed_value = words_to_seed(string_to_words($1), wordlist_en) ;; {$1}
at %shared_ptr<KeyFile>.seed_value = secure_random() ;; !{$1}
at %shared_ptr<KeyFile>.finger_print = get_finger_print(ite({$1}, words_to_seed(string_to_words($1), wordlist_en), secure_random()), $2) ;; {$2}
at import_wallet($0, %shared_ptr<KeyFile>, $2)
fn mmx::Wallet::import_wallet
each $0.num_addresses = @num_addresses ;; {$1} ;; !{$0.num_addresses}
each $0.with_passphrase = {$2} ;; {$1}
each $0.finger_print = get_finger_print($1.seed_value, $2) ;; {$1}
each $0.key_file = (("wallet_" ++ $0.finger_print) ++ ".dat") ;; {$1} ;; {empty($0.key_file)}
each write_to_file((@storage_path ++ $0.key_file), $1) ;; {$1}
each create_account($0, $2) ;; {$1}
each remove(ctor(File, (@storage_path ++ $0.key_file))) ;; {$1} ;; !{read_from_file((@storage_path ++ $0.key_file))}
each permissions(ctor(filesystem::path, (@storage_path ++ $0.key_file), path::auto_format), (perms::owner_read | perms::owner_write), perm_options::replace) ;; {$1}
at ctor:File((@storage_path ++ $0.key_file))
raise !{$1}
raise {$1} ;; {$1.finger_print} ;; !{$1.finger_print == get_finger_print($1.seed_value, $2)}
raise {$1} ;; {read_from_file((@storage_path ++ $0.key_file))} ;; !{$1.seed_value == read_from_file((@storage_path ++ $0.key_file)).seed_value}
rethrow {did remove(ctor(File, (@storage_path ++ $0.key_file)))} | {read_from_file((@storage_path ++ $0.key_file))}
exit {$1}
exit {did $0.finger_print = get_finger_print($1.seed_value, $2)}
exit {did $0.with_passphrase = {$2}}
exit {did create_account($0, $2)}
exit {did permissions(ctor(filesystem::path, (@storage_path ++ $0.key_file), path::auto_format), (perms::owner_read | perms::owner_write), perm_options::replace)}
exit {did write_to_file((@storage_path ++ $0.key_file), $1)}
exit !{$1.finger_print} | {$1.finger_print == get_finger_print($1.seed_value, $2)}
exit !{empty($0.key_file)} | {did $0.key_file = (("wallet_" ++ $0.finger_print) ++ ".dat")}
exit !{read_from_file((@storage_path ++ $0.key_file))} | {$1.seed_value == read_from_file((@storage_path ++ $0.key_file)).seed_value}
exit {$0.num_addresses} | {did $0.num_addresses = @num_addresses}
at $0.num_addresses = @num_addresses ;; !{$0.num_addresses}
at $0.with_passphrase = {$2}
at $0.finger_print = get_finger_print($1.seed_value, $2)
at $0.key_file = (("wallet_" ++ $0.finger_print) ++ ".dat") ;; {empty($0.key_file)}
at write_to_file((@storage_path ++ $0.key_file), $1)
at create_account($0, $2)
at remove(ctor(File, (@storage_path ++ $0.key_file))) ;; !{read_from_file((@storage_path ++ $0.key_file))}
at permissions(ctor(filesystem::path, (@storage_path ++ $0.key_file), path::auto_format), (perms::owner_read | perms::owner_write), perm_options::replace)
fn mmx::Wallet::export_wallet
raise !{read_from_file((@storage_path ++ get_wallet($0).config.key_file))}
exit {read_from_file((@storage_path ++ get_wallet($0).config.key_file))}
exit {ret = read_from_file((@storage_path ++ get_wallet($0).config.key_file))}
fn mmx::Wallet::remove_account
each at(@accounts, ($0 + -@max_key_files)).is_hidden = true ;; !{$0 < @max_key_files} ;; {($0 + -@max_key_files) < size(@accounts)}
each at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "accounts+") = @accounts ;; !{$0 < @max_key_files} ;; {($0 + -@max_key_files) < size(@accounts)}
each write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json"))) ;; !{$0 < @max_key_files} ;; {($0 + -@max_key_files) < size(@accounts)}
each at(@wallets, $0) = 0 ;; !{$0 < @max_key_files} ;; {($0 + -@max_key_files) < size(@accounts)}
raise {$0 < @max_key_files}
raise !{$0 < @max_key_files} ;; !{($0 + -@max_key_files) < size(@accounts)}
exit !{$0 < @max_key_files}
exit {($0 + -@max_key_files) < size(@accounts)}
exit {did at(@accounts, ($0 + -@max_key_files)).is_hidden = true}
exit {did at(@wallets, $0) = 0}
exit {did at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "accounts+") = @accounts}
exit {did write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json")))}
at at(@accounts, ($0 + -@max_key_files)).is_hidden = true
at at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "accounts+") = @accounts
at write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json")))
at at(@wallets, $0) = 0
fn mmx::Wallet::set_address_count
each at(@accounts, ($0 + -@max_key_files)).num_addresses = $1 ;; {$1} ;; !{@max_addresses < $1} ;; !{$0 < @max_key_files} ;; {($0 + -@max_key_files) < size(@accounts)}
each at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "accounts+") = @accounts ;; {$1} ;; !{@max_addresses < $1} ;; !{$0 < @max_key_files} ;; {($0 + -@max_key_files) < size(@accounts)}
each at(@wallets, $0) = 0 ;; {$1} ;; !{@max_addresses < $1} ;; !{$0 < @max_key_files} ;; {($0 + -@max_key_files) < size(@accounts)}
each add_account($0, at(@accounts, ($0 + -@max_key_files)), 0) ;; {$1} ;; !{@max_addresses < $1} ;; !{$0 < @max_key_files} ;; {($0 + -@max_key_files) < size(@accounts)}
each @num_addresses = $1 ;; {$1} ;; !{@max_addresses < $1} ;; {$0 < @max_key_files}
each at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "num_addresses") = $1 ;; {$1} ;; !{@max_addresses < $1} ;; {$0 < @max_key_files}
each clear(@wallets) ;; {$1} ;; !{@max_addresses < $1} ;; {$0 < @max_key_files}
each add_task(bind(&vnx_restart, this)) ;; {$1} ;; !{@max_addresses < $1} ;; {$0 < @max_key_files}
each write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json"))) ;; {$1} ;; !{@max_addresses < $1}
raise !{$1} | {@max_addresses < $1}
raise {$1} ;; !{@max_addresses < $1} ;; !{$0 < @max_key_files} ;; !{($0 + -@max_key_files) < size(@accounts)}
exit !{@max_addresses < $1}
exit {$1}
exit {did write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json")))}
exit !{$0 < @max_key_files} | {did @num_addresses = $1}
exit !{$0 < @max_key_files} | {did add_task(bind(&vnx_restart, this))}
exit !{$0 < @max_key_files} | {did at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "num_addresses") = $1}
exit !{$0 < @max_key_files} | {did clear(@wallets)}
exit {$0 < @max_key_files} | {($0 + -@max_key_files) < size(@accounts)}
exit {$0 < @max_key_files} | {did add_account($0, at(@accounts, ($0 + -@max_key_files)), 0)}
exit {$0 < @max_key_files} | {did at(@accounts, ($0 + -@max_key_files)).num_addresses = $1}
exit {$0 < @max_key_files} | {did at(@wallets, $0) = 0}
exit {$0 < @max_key_files} | {did at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "accounts+") = @accounts}
at at(@accounts, ($0 + -@max_key_files)).num_addresses = $1 ;; !{$0 < @max_key_files} ;; {($0 + -@max_key_files) < size(@accounts)}
at at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "accounts+") = @accounts ;; !{$0 < @max_key_files} ;; {($0 + -@max_key_files) < size(@accounts)}
at at(@wallets, $0) = 0 ;; !{$0 < @max_key_files} ;; {($0 + -@max_key_files) < size(@accounts)}
at add_account($0, at(@accounts, ($0 + -@max_key_files)), 0) ;; !{$0 < @max_key_files} ;; {($0 + -@max_key_files) < size(@accounts)}
at @num_addresses = $1 ;; {$0 < @max_key_files}
at at(read_config_file(((@config_path ++ @vnx_name) ++ ".json")), "num_addresses") = $1 ;; {$0 < @max_key_files}
at clear(@wallets) ;; {$0 < @max_key_files}
at add_task(bind(&vnx_restart, this)) ;; {$0 < @max_key_files}
at write_config_file(((@config_path ++ @vnx_name) ++ ".json"), read_config_file(((@config_path ++ @vnx_name) ++ ".json")))
fn mmx::Wallet::sign_msg
never throw …
exit {ret = sign_msg(get_wallet($0), $1, $2, ctor(spend_options_t))}
fn mmx::Wallet::sign_off
each update_cache($0) ;; {$1}
each sign_off(get_wallet($0), clone($1), $2) ;; {$1}
never throw …
exit !{$1} | {ret = clone($1)}
exit {$1} | {ret = 0}
exit !{$1} | {did sign_off(get_wallet($0), clone($1), $2)}
exit !{$1} | {did update_cache($0)}
at update_cache($0) ;; {$1}
at sign_off(get_wallet($0), clone($1), $2) ;; {$1}
fn mmx::Wallet::complete
each update_cache($0) ;; {$1}
each complete(get_wallet($0), clone($1), $2, ctor(vector<pair<addr_t,uint128>>)) ;; {$1}
never throw …
exit !{$1} | {ret = clone($1)}
exit {$1} | {ret = 0}
exit !{$1} | {did complete(get_wallet($0), clone($1), $2, ctor(vector<pair<addr_t,uint128>>))}
exit !{$1} | {did update_cache($0)}
at update_cache($0) ;; {$1}
at complete(get_wallet($0), clone($1), $2, ctor(vector<pair<addr_t,uint128>>)) ;; {$1}
fn mmx::Wallet::get_master_seed
never throw …
exit {ret = export_wallet($0).seed_value}
fn mmx::Wallet::get_mnemonic_seed
never throw …
exit {ret = seed_to_words(export_wallet($0).seed_value, wordlist_en)}
fn mmx::Wallet::get_farmer_keys
raise !{at(@wallets, $0)}
exit {at(@wallets, $0)}
exit {ret = get_farmer_key(at(@wallets, $0))}
fn mmx::Wallet::get_all_farmer_keys
each push_back(%vector<pair<skey_t,pubkey_t>>, get_farmer_key(elem(@wallets))) ;; {elem(@wallets)}
never break(@wallets)
never throw …
exit {ret = %vector<pair<skey_t,pubkey_t>>}
exit !{elem(@wallets)} | {did push_back(%vector<pair<skey_t,pubkey_t>>, get_farmer_key(elem(@wallets)))}
at push_back(%vector<pair<skey_t,pubkey_t>>, get_farmer_key(elem(@wallets))) ;; {elem(@wallets)}
fn mmx::Wallet::find_wallet_by_addr
exit {-1 < find_address(elem(@wallets), $0)}
exit {elem(@wallets)}
exit {ret = i32(idx(@wallets))}
never break(@wallets) ;; {elem(@wallets)} ;; {-1 < find_address(elem(@wallets), $0)}
fn mmx::Wallet::get_address
never throw …
exit {ret = get_address(get_wallet($0), $1)}
fn mmx::Wallet::get_all_addresses
never break(@wallets)
each insert(%vector<addr_t>, end(%vector<addr_t>), begin(get_all_addresses(elem(@wallets))), end(get_all_addresses(elem(@wallets)))) ;; !{-1 < $0} ;; {elem(@wallets)}
never throw …
exit !{-1 < $0} | {ret = get_all_addresses(get_wallet($0))}
exit {-1 < $0} | {ret = %vector<addr_t>}
exit !{elem(@wallets)} | {-1 < $0} | {did insert(%vector<addr_t>, end(%vector<addr_t>), begin(get_all_addresses(elem(@wallets))), end(get_all_addresses(elem(@wallets))))}
at insert(%vector<addr_t>, end(%vector<addr_t>), begin(get_all_addresses(elem(@wallets))), end(get_all_addresses(elem(@wallets)))) ;; !{-1 < $0} ;; {elem(@wallets)}
fn mmx::Wallet::get_account
never throw …
exit {ret = make($0, find_address(get_wallet($0), 0), get_wallet($0).config)}
fn mmx::Wallet::get_all_accounts
never break(@wallets)
each push_back(%vector<account_info_t>, make(u32(idx(@wallets)), find_address(elem(@wallets), 0), elem(@wallets).config)) ;; {elem(@wallets)}
never throw …
exit {ret = %vector<account_info_t>}
exit !{elem(@wallets)} | {did push_back(%vector<account_info_t>, make(u32(idx(@wallets)), find_address(elem(@wallets), 0), elem(@wallets).config))}
at push_back(%vector<account_info_t>, make(u32(idx(@wallets)), find_address(elem(@wallets), 0), elem(@wallets).config)) ;; {elem(@wallets)}
fn mmx::Wallet::main
each push_back(@key_files, "wallet.dat") ;; !{@max_addresses < @num_addresses} ;; {exists(ctor(File, (@storage_path ++ "wallet.dat")))} ;; {empty(@key_files)}
each clear(@key_files) ;; !{@max_addresses < @num_addresses} ;; !{exists(ctor(File, (@storage_path ++ "wallet.dat")))} ;; {1 == size(@key_files)} ;; {"wallet.dat" == at(@key_files, 0)}
each @params = get_params() ;; !{@max_addresses < @num_addresses} ;; !{@max_key_files < size(@key_files)}
each insert(@token_whitelist, ctor(addr_t)) ;; !{@max_addresses < @num_addresses} ;; !{@max_key_files < size(@key_files)}
each create(ctor(Directory, @config_path)) ;; !{@max_addresses < @num_addresses} ;; !{@max_key_files < size(@key_files)}
each create(ctor(Directory, @storage_path)) ;; !{@max_addresses < @num_addresses} ;; !{@max_key_files < size(@key_files)}
each create(ctor(Directory, @database_path)) ;; !{@max_addresses < @num_addresses} ;; !{@max_key_files < size(@key_files)}
each open(@tx_log, (@database_path ++ "tx_log")) ;; !{@max_addresses < @num_addresses} ;; !{@max_key_files < size(@key_files)}
each @node = new(NodeClient, @node_server) ;; !{@max_addresses < @num_addresses} ;; !{@max_key_files < size(@key_files)}
each @http = new(addons::HttpInterface<Wallet>, this, @vnx_name) ;; !{@max_addresses < @num_addresses} ;; !{@max_key_files < size(@key_files)}
each add_async_client(new(addons::HttpInterface<Wallet>, this, @vnx_name)) ;; !{@max_addresses < @num_addresses} ;; !{@max_key_files < size(@key_files)}
each %account_t.key_file = elem(@key_files) ;; !{@max_addresses < @num_addresses} ;; !{@max_key_files < size(@key_files)}
each %account_t.num_addresses = @num_addresses ;; !{@max_addresses < @num_addresses} ;; !{@max_key_files < size(@key_files)}
each add_account(u32(idx(@key_files)), %account_t, 0) ;; !{@max_addresses < @num_addresses} ;; !{@max_key_files < size(@key_files)}
each add_account(u32((@max_key_files + idx(@accounts))), elem(@accounts), 0) ;; !{@max_addresses < @num_addresses} ;; !{@max_key_files < size(@key_files)} ;; !{elem(@accounts).is_hidden}
each main() ;; !{@max_addresses < @num_addresses} ;; !{@max_key_files < size(@key_files)}
never break(@key_files)
never break(@accounts)
at ctor:File((@storage_path ++ "wallet.dat"))
at ctor:Directory(@config_path)
at ctor:Directory(@storage_path)
at ctor:Directory(@database_path)
raise {@max_addresses < @num_addresses}
raise !{@max_addresses < @num_addresses} ;; {@max_key_files < size(@key_files)}
exit !{@max_addresses < @num_addresses}
exit !{@max_key_files < size(@key_files)}
exit {did %account_t.key_file = elem(@key_files)}
exit {did @http = new(addons::HttpInterface<Wallet>, this, @vnx_name)}
exit {did @node = new(NodeClient, @node_server)}
exit {did @params = get_params()}
exit {did add_async_client(new(addons::HttpInterface<Wallet>, this, @vnx_name))}
exit {did create(ctor(Directory, @config_path))}
exit {did create(ctor(Directory, @database_path))}
exit {did create(ctor(Directory, @storage_path))}
exit {did insert(@token_whitelist, ctor(addr_t))}
exit {did main()}
exit {did open(@tx_log, (@database_path ++ "tx_log"))}
exit {did %account_t.num_addresses = @num_addresses} | {empty(@key_files)}
exit !{empty(@key_files)} | !{exists(ctor(File, (@storage_path ++ "wallet.dat")))} | {did push_back(@key_files, "wallet.dat")}
exit !{"wallet.dat" == at(@key_files, 0)} | !{1 == size(@key_files)} | {did clear(@key_files)} | {exists(ctor(File, (@storage_path ++ "wallet.dat")))}
at push_back(@key_files, "wallet.dat") ;; {exists(ctor(File, (@storage_path ++ "wallet.dat")))} ;; {empty(@key_files)}
at clear(@key_files) ;; !{exists(ctor(File, (@storage_path ++ "wallet.dat")))} ;; {1 == size(@key_files)} ;; {"wallet.dat" == at(@key_files, 0)}
at @params = get_params()
at insert(@token_whitelist, ctor(addr_t))
at create(ctor(Directory, @config_path))
at create(ctor(Directory, @storage_path))
at create(ctor(Directory, @database_path))
at open(@tx_log, (@database_path ++ "tx_log"))
at @node = new(NodeClient, @node_server)
at @http = new(addons::HttpInterface<Wallet>, this, @vnx_name)
at add_async_client(new(addons::HttpInterface<Wallet>, this, @vnx_name))
at %account_t.key_file = elem(@key_files)
at %account_t.num_addresses = @num_addresses
at add_account(u32(idx(@key_files)), %account_t, 0)
at add_account(u32((@max_key_files + idx(@accounts))), elem(@accounts), 0) ;; !{elem(@accounts).is_hidden}
at main()
