tus src/Transaction.cpp src/contract/MultiSig.cpp src/ProofOfTime.cpp src/ValidatorVote.cpp
fn mmx::write_bytes_cstr sig=(mmx::WriteBytes~&,~const~char~*)
never throw …
seq write‥ ;; write($0, $1, strlen($1))
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~bool~&)
never throw …
seq write‥ ;; write($0, u8(ite({$1}, 1, 0)), 1)
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~long~&)
never throw …
seq write‥ ;; write($0, to_little_endian($1), 8)
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~int~&)
never throw …
seq write‥ ;; write_bytes($0, $1)
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~short~&)
never throw …
seq write‥ ;; write_bytes($0, $1)
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~signed~char~&)
never throw …
seq write‥ ;; write_bytes($0, $1)
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~unsigned~long~&)
never throw …
seq write‥ ;; write($0, to_little_endian($1), 8)
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~unsigned~int~&)
never throw …
seq write‥ ;; write_bytes($0, $1)
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~unsigned~short~&)
never throw …
seq write‥ ;; write_bytes($0, $1)
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~unsigned~char~&)
never throw …
seq write‥ ;; write_bytes($0, $1)
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~mmx::uint128~&)
never throw …
seq write‥ ;; write_bytes($0, lower($1)) ;; write_bytes($0, upper($1))
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~std::basic_string<char,~std::char_traits<char>,~std::allocator<char>>~&)
never throw …
seq write‥ ;; write_bytes_cstr($0, "string<>") ;; write_bytes($0, size($1)) ;; write($0, data($1), size($1))
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~mmx::bytes_t<32>~&)
never throw …
seq write‥ ;; write_bytes_cstr($0, "bytes<>") ;; write_bytes($0, size($1)) ;; write($0, data($1), size($1))
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~std::vector<unsigned~char,~std::allocator<unsigned~char>>~&)
never throw …
seq write‥ ;; write_bytes_cstr($0, "bytes<>") ;; write_bytes($0, size($1)) ;; write($0, data($1), size($1))
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~vnx::Buffer~&)
never throw …
seq write‥ ;; write_bytes_cstr($0, "bytes<>") ;; write_bytes($0, size($1)) ;; write($0, data($1), size($1))
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~vnx::Variant~&)
never throw …
seq write‥ ;; write_bytes_cstr($0, "variant<>") ?? !{is_json($1)} && {0 < $0.version} ;; write_bytes_cstr($0, "NULL") ?? {is_null($1)} ;; write_bytes_cstr($0, "<bool>") ?? !{is_null($1)} && {0 < $0.version} && {is_bool($1)} ;; write_bytes($0, {to($1)}) ?? !{is_null($1)} && {is_bool($1)} ;; write_bytes_cstr($0, "<u64>") ?? !{is_bool($1)} && !{is_null($1)} && {0 < $0.version} && {is_ulong($1)} ;; write_bytes($0, to($1)) ?? !{is_bool($1)} && !{is_null($1)} && {is_ulong($1)} ;; write_bytes_cstr($0, "<i64>") ?? !{is_bool($1)} && !{is_null($1)} && !{is_ulong($1)} && {0 < $0.version} && {is_long($1)} ;; write_bytes($0, to($1)) ?? !{is_bool($1)} && !{is_null($1)} && !{is_ulong($1)} && {is_long($1)} ;; write_bytes($0, to($1)) ?? !{is_bool($1)} && !{is_long($1)} && !{is_null($1)} && !{is_ulong($1)} && {is_string($1)} ;; write_bytes($0, to($1)) ?? !{is_bool($1)} && !{is_long($1)} && !{is_null($1)} && !{is_string($1)} && !{is_ulong($1)} && {is_array($1)} ;; write_bytes($0, to_object($1)) ?? !{is_array($1)} && !{is_bool($1)} && !{is_long($1)} && !{is_null($1)} && !{is_string($1)} && !{is_ulong($1)} && {is_object($1)} ;; write_bytes($0, $1.data) ?? !{is_array($1)} && !{is_bool($1)} && !{is_long($1)} && !{is_null($1)} && !{is_object($1)} && !{is_string($1)} && !{is_ulong($1)}
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~vnx::Object~&)
never throw …
seq write‥ ;; write_bytes_cstr($0, "object<>") ;; write_bytes($0, $1.field)
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~mmx::txin_t~&)
never throw …
seq write‥ ;; write_bytes_ex($0, $1, false)
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~mmx::txout_t~&)
never throw …
seq write‥ ;; write_bytes_cstr($0, "txout_t<>") ;; write_bytes_ex($0, $1)
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~mmx::ulong_fraction_t~&)
never throw …
seq write‥ ;; write_bytes_cstr($0, "ulong_fraction_t<>") ;; write_bytes($0, $1.value) ;; write_bytes($0, $1.inverse)
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~mmx::compile_flags_t~&)
never throw …
seq write‥ ;; write_bytes_cstr($0, "compile_flags_t<>") ;; write_field($0, "verbose", $1.verbose) ;; write_field($0, "opt_level", $1.opt_level) ;; write_field($0, "catch_overflow", $1.catch_overflow)
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~mmx::contract::method_t~&)
never throw …
seq write‥ ;; write_bytes($0, get_type_hash($1)) ;; write_field($0, "name", $1.name) ;; write_field($0, "info", $1.info) ;; write_field($0, "is_init", $1.is_init) ;; write_field($0, "is_const", $1.is_const) ;; write_field($0, "is_public", $1.is_public) ;; write_field($0, "is_payable", $1.is_payable) ;; write_field($0, "entry_point", $1.entry_point) ;; write_field($0, "args", $1.args)
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~vnx::optional<std::basic_string<char,~std::char_traits<char>,~std::allocator<char>>>~&)
never throw …
seq write‥ ;; write_bytes_cstr($0, "optional<>") ;; write_bytes($0, true) ?? {$1} ;; write_bytes($0, $1) ?? {$1} ;; write_bytes($0, false) ?? !{$1}
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~std::pair<const~std::basic_string<char,~std::char_traits<char>,~std::allocator<char>>,~vnx::Variant>~&)
never throw …
seq write‥ ;; write_bytes_cstr($0, "pair<>") ;; write_bytes($0, $1.first) ;; write_bytes($0, $1.second)
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~std::vector<vnx::Variant,~std::allocator<vnx::Variant>>~&)
never break($1)
never throw …
seq write‥ ;; write_bytes_cstr($0, "vector<>") ;; write_bytes($0, size($1)) ;; write_bytes($0, elem($1))
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~std::set<mmx::addr_t,~std::less<mmx::addr_t>,~std::allocator<mmx::addr_t>>~&)
never break($1)
never throw …
seq write‥ ;; write_bytes_cstr($0, "vector<>") ;; write_bytes($0, size($1)) ;; write_bytes($0, elem($1))
fn mmx::write_bytes sig=(mmx::WriteBytes~&,~const~std::map<std::basic_string<char,~std::char_traits<char>,~std::allocator<char>>,~vnx::Variant,~std::less<std::basic_string<char,~std::char_traits<char>,~std::allocator<char>>>,~std::allocator<std::pair<const~std::basic_string<char,~std::char_traits<char>,~std::allocator<char>>,~vnx::Variant>>>~&)
never break($1)
never throw …
seq write‥ ;; write_bytes_cstr($0, "vector<>") ;; write_bytes($0, size($1)) ;; write_bytes($0, elem($1))
fn mmx::write_bytes_ex sig=(mmx::WriteBytes~&,~const~mmx::txio_t~&)
never throw …
seq write‥ ;; write_bytes($0, $1.address) ;; write_bytes($0, $1.contract) ;; write_bytes($0, $1.amount) ;; write_bytes($0, $1.memo)
fn mmx::write_bytes_ex sig=(mmx::WriteBytes~&,~const~mmx::txin_t~&,~const~bool)
never throw …
seq write‥ ;; write_bytes_cstr($0, "txin_t<>") ;; write_bytes_ex($0, $1) ;; write_bytes($0, $1.solution) ?? {$2} ;; write_bytes($0, $1.flags) ?? {$2}
fn mmx::write_bytes_ex sig=(mmx::WriteBytes~&,~const~std::vector<mmx::txin_t,~std::allocator<mmx::txin_t>>~&,~const~bool)
never break($1)
never throw …
seq write‥ ;; write_bytes_cstr($0, "vector<>") ;; write_bytes($0, size($1)) ;; write_bytes_ex($0, elem($1), $2)
fn mmx::write_field sig=(mmx::WriteBytes~&,~const~std::basic_string<char,~std::char_traits<char>,~std::allocator<char>>~&)
never throw …
seq write‥ ;; write_bytes_cstr($0, "field<>") ;; write_bytes($0, $1)
fn mmx::write_field sig=(mmx::WriteBytes~&,~const~std::basic_string<char,~std::char_traits<char>,~std::allocator<char>>~&,~const~int~&)
never throw …
seq write‥ ;; write_field($0, $1) ;; write_bytes($0, $2)
fn mmx::write_field_ex sig=(mmx::WriteBytes~&,~const~std::basic_string<char,~std::char_traits<char>,~std::allocator<char>>~&,~const~std::vector<mmx::txin_t,~std::allocator<mmx::txin_t>>~&,~const~bool)
never throw …
seq write‥ ;; write_field($0, $1) ;; write_bytes_ex($0, $2, $3)
