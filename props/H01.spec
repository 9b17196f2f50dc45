tus src/Transaction.cpp src/exec_result_t.cpp src/exec_error_t.cpp src/operation/Execute.cpp src/operation/Deposit.cpp src/solution/PubKey.cpp src/solution/MultiSig.cpp src/contract/Binary.cpp src/contract/Data.cpp src/contract/Executable.cpp src/contract/MultiSig.cpp src/contract/PubKey.cpp src/contract/TokenBase.cpp src/contract/WebData.cpp src/Operation.cpp src/Contract.cpp src/Solution.cpp
fn mmx::Transaction::hash_serialize
never break(@execute)
never break(@solutions)
never throw …
exit {ret = %vector<unsignedchar>}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "version", @version) ;; write_field(%WriteBytes, "expires", @expires) ;; write_field(%WriteBytes, "fee_ratio", @fee_ratio) ;; write_field(%WriteBytes, "max_fee_amount", @max_fee_amount) ;; write_field(%WriteBytes, "note", @note) ;; write_field(%WriteBytes, "nonce", @nonce) ;; write_field(%WriteBytes, "network", @network) ;; write_field(%WriteBytes, "sender", @sender) ;; write_field_ex(%WriteBytes, "inputs", @inputs, $0) ;; write_field(%WriteBytes, "outputs", @outputs) ;; write_field(%WriteBytes, "execute") ;; write_bytes(%WriteBytes, u32(size(@execute))) ;; write_bytes(%WriteBytes, ite({elem(@execute)}, calc_hash(elem(@execute), $0, @version), ctor(hash_t))) ;; write_field(%WriteBytes, "deploy", ite({@deploy}, calc_hash(@deploy, $0, @version), ctor(hash_t))) ;; write_field(%WriteBytes, "static_cost", @static_cost) ?? {$0} ;; write_field(%WriteBytes, "solutions") ?? {$0} ;; write_bytes(%WriteBytes, u32(size(@solutions))) ?? {$0} ;; write_bytes(%WriteBytes, ite({elem(@solutions)}, calc_hash(elem(@solutions)), ctor(hash_t))) ?? {$0} ;; write_field(%WriteBytes, "exec_result", ite({@exec_result}, calc_hash(@exec_result), ctor(hash_t))) ?? {$0}
fn mmx::Transaction::calc_hash
never throw …
exit {ret = ctor(hash_t, hash_serialize($0))}
fn mmx::exec_result_t::calc_hash
never throw …
exit {ret = ctor(hash_t, %vector<unsignedchar>)}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "did_fail", @did_fail) ;; write_field(%WriteBytes, "total_cost", @total_cost) ;; write_field(%WriteBytes, "total_fee", @total_fee) ;; write_field(%WriteBytes, "inputs", @inputs) ;; write_field(%WriteBytes, "outputs", @outputs) ;; write_field(%WriteBytes, "error", ite({@error}, calc_hash(@error), ctor(hash_t)))
fn mmx::exec_error_t::calc_hash
never throw …
exit {ret = ctor(hash_t, %vector<unsignedchar>)}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "code", @code) ;; write_field(%WriteBytes, "address", @address) ;; write_field(%WriteBytes, "operation", @operation) ;; write_field(%WriteBytes, "line", @line) ;; write_field(%WriteBytes, "message", @message)
fn mmx::operation::Execute::calc_hash
never throw …
exit {ret = ctor(hash_t, %vector<unsignedchar>)}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "version", @version) ;; write_field(%WriteBytes, "address", @address) ;; write_field(%WriteBytes, "method", @method) ;; write_field(%WriteBytes, "args", @args) ;; write_field(%WriteBytes, "user", @user) ;; write_field(%WriteBytes, "solution", @solution) ?? {$0}
fn mmx::operation::Deposit::calc_hash
never throw …
exit {ret = ctor(hash_t, %vector<unsignedchar>)}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "version", @version) ;; write_field(%WriteBytes, "address", @address) ;; write_field(%WriteBytes, "method", @method) ;; write_field(%WriteBytes, "args", @args) ;; write_field(%WriteBytes, "user", @user) ;; write_field(%WriteBytes, "currency", @currency) ;; write_field(%WriteBytes, "amount", @amount) ;; write_field(%WriteBytes, "solution", @solution) ?? {$0}
fn mmx::solution::PubKey::calc_hash
never throw …
exit {ret = ctor(hash_t, %vector<unsignedchar>)}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "version", @version) ;; write_field(%WriteBytes, "pubkey", @pubkey) ;; write_field(%WriteBytes, "signature", @signature)
fn mmx::solution::MultiSig::calc_hash
never break(@solutions)
never throw …
exit {ret = ctor(hash_t, %vector<unsignedchar>)}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "version", @version) ;; write_field(%WriteBytes, "solutions") ;; write_bytes(%WriteBytes, u32(size(@solutions))) ;; write_bytes_cstr(%WriteBytes, "pair<>") ;; write_bytes(%WriteBytes, elem(@solutions).first) ;; write_bytes(%WriteBytes, ite({elem(@solutions).second}, calc_hash(elem(@solutions).second), ctor(hash_t))) ;; write_field(%WriteBytes, "num_required", @num_required)
fn mmx::contract::Binary::calc_hash
never throw …
exit {ret = ctor(hash_t, %vector<unsignedchar>)}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "version", @version) ;; write_field(%WriteBytes, "name", @name) ;; write_field(%WriteBytes, "fields", @fields) ;; write_field(%WriteBytes, "methods", @methods) ;; write_field(%WriteBytes, "constant", @constant) ;; write_field(%WriteBytes, "binary", @binary) ;; write_field(%WriteBytes, "line_info", @line_info) ;; write_field(%WriteBytes, "source", @source) ;; write_field(%WriteBytes, "compiler", @compiler) ;; write_field(%WriteBytes, "build_flags", @build_flags)
fn mmx::contract::Data::calc_hash
never throw …
exit {ret = ctor(hash_t, %vector<unsignedchar>)}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "version", @version) ;; write_field(%WriteBytes, "value", @value)
fn mmx::contract::Executable::calc_hash
never throw …
exit {ret = ctor(hash_t, %vector<unsignedchar>)}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "version", @version) ;; write_field(%WriteBytes, "name", @name) ;; write_field(%WriteBytes, "symbol", @symbol) ;; write_field(%WriteBytes, "decimals", @decimals) ;; write_field(%WriteBytes, "meta_data", @meta_data) ;; write_field(%WriteBytes, "binary", @binary) ;; write_field(%WriteBytes, "init_method", @init_method) ;; write_field(%WriteBytes, "init_args", @init_args) ;; write_field(%WriteBytes, "depends", @depends)
fn mmx::contract::MultiSig::calc_hash
never throw …
exit {ret = ctor(hash_t, %vector<unsignedchar>)}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "version", @version) ;; write_field(%WriteBytes, "num_required", @num_required) ;; write_field(%WriteBytes, "owners", @owners)
fn mmx::contract::PubKey::calc_hash
never throw …
exit {ret = ctor(hash_t, %vector<unsignedchar>)}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "version", @version) ;; write_field(%WriteBytes, "address", @address)
fn mmx::contract::TokenBase::calc_hash
never throw …
exit {ret = ctor(hash_t, %vector<unsignedchar>)}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "version", @version) ;; write_field(%WriteBytes, "name", @name) ;; write_field(%WriteBytes, "symbol", @symbol) ;; write_field(%WriteBytes, "decimals", @decimals) ;; write_field(%WriteBytes, "meta_data", @meta_data)
fn mmx::contract::WebData::calc_hash
never throw …
exit {ret = ctor(hash_t, %vector<unsignedchar>)}
seq write_‥ ;; write_bytes(%WriteBytes, get_type_hash()) ;; write_field(%WriteBytes, "version", @version) ;; write_field(%WriteBytes, "mime_type", @mime_type) ;; write_field(%WriteBytes, "payload", @payload)
fn mmx::Operation::calc_hash
exit {never returns}
fn mmx::Contract::calc_hash
exit {never returns}
fn mmx::Solution::calc_hash
exit {never returns}
