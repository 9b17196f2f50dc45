From f5e14357adb56347f30f0798012230c7e58b5bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 01/18] fix: rotl_32 / rotl_64 by zero bits shifted by the full
 word width (undefined behaviour in calc_mem_hash)

---
 include/mmx/pos/util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mmx/pos/util.h b/include/mmx/pos/util.h
index 6439538..7e8a61b 100644
--- a/include/mmx/pos/util.h
+++ b/include/mmx/pos/util.h
@@ -50,7 +50,7 @@ inline uint32_t rotl_32(const uint32_t v, int bits)
 #ifdef _MSC_VER
 	return _rotl(v, bits);
 #else
-	return (v << bits) | (v >> (32 - bits));
+	return (v << bits) | (v >> ((32 - bits) & 31));
 #endif
 }
 
@@ -59,7 +59,7 @@ inline uint64_t rotl_64(const uint64_t v, int bits)
 #ifdef _MSC_VER
 	return _rotl64(v, bits);
 #else
-	return (v << bits) | (v >> (64 - bits));
+	return (v << bits) | (v >> ((64 - bits) & 63));
 #endif
 }
 
-- 
2.43.0


From dfae61542b1b918669aa5054d8b539fa5b1b3ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 02/18] fix: decode() failed on valid streams when two refills
 were needed before a long symbol

---
 src/pos/encoding.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pos/encoding.cpp b/src/pos/encoding.cpp
index 68f67f0..c690f8e 100644
--- a/src/pos/encoding.cpp
+++ b/src/pos/encoding.cpp
@@ -92,7 +92,7 @@ std::vector<uint8_t> decode(const std::vector<uint64_t>& bit_stream, const uint6
 
 	while(out.size() < num_symbols)
 	{
-		if(bits < 32) {
+		while(bits < 32) {
 			const auto index = offset / 64;
 			if(index < bit_stream.size()) {
 				const uint32_t count = std::min<uint32_t>(64 - (offset % 64), 64 - bits);
@@ -101,6 +101,8 @@ std::vector<uint8_t> decode(const std::vector<uint64_t>& bit_stream, const uint6
 				bits += count;
 			} else if(bits == 0) {
 				throw std::logic_error("bit stream underflow");
+			} else {
+				break;
 			}
 		}
 		const auto sym = decode_symbol(buffer);
-- 
2.43.0


From 2d1937eb1d14a52055caf27fcbc11d4dfba9d3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 03/18] fix: to_amount rejects NaN and values beyond 128 bits

---
 include/mmx/utils.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mmx/utils.h b/include/mmx/utils.h
index 6c521a1..fa1d094 100644
--- a/include/mmx/utils.h
+++ b/include/mmx/utils.h
@@ -71,7 +71,7 @@ uint128 to_amount(const double value, const int decimals)
 	if(decimals < 0 || decimals > 18) {
 		throw std::runtime_error("invalid decimals: " + std::to_string(decimals));
 	}
-	if(value == std::numeric_limits<double>::quiet_NaN()) {
+	if(std::isnan(value)) {
 		throw std::runtime_error("invalid value: NaN");
 	}
 	if(value < 0) {
@@ -82,6 +82,9 @@ uint128 to_amount(const double value, const int decimals)
 		shift *= 10;
 	}
 	const double div_64 = pow(2, 64);
+	if(value / div_64 >= div_64) {
+		throw std::runtime_error("amount overflow: " + std::to_string(value));
+	}
 	const uint64_t value_128 = value / div_64;
 	const uint64_t value_64  = fmod(value, div_64);
 
-- 
2.43.0


From 34b87b45ca170aebab8e6f2dbf9ea37d37a9d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 04/18] fix: fixed128 rejects malformed digits and values that
 do not fit 128 bits

---
 include/mmx/fixed128.hpp |  2 +-
 src/fixed128.cpp         | 25 ++++++++++++++++++-------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/mmx/fixed128.hpp b/include/mmx/fixed128.hpp
index 03b88fa..00910d7 100644
--- a/include/mmx/fixed128.hpp
+++ b/include/mmx/fixed128.hpp
@@ -25,7 +25,7 @@ public:
 	fixed128() = default;
 
 	fixed128(const uint128& value) {
-		fixed = value * divider;
+		fixed = uint256_t(value) * divider;
 	}
 
 	fixed128(const uint128_t& value, const int decimals);
diff --git a/src/fixed128.cpp b/src/fixed128.cpp
index 9ccaf5d..3c4bc57 100644
--- a/src/fixed128.cpp
+++ b/src/fixed128.cpp
@@ -26,6 +26,18 @@ static uint64_t calc_divider(const int decimals)
 
 const uint64_t fixed128::divider = calc_divider(fixed128::decimals);
 
+static uint128 parse_digits(const std::string& str)
+{
+	if(str.find_first_not_of("0123456789") != std::string::npos) {
+		throw std::logic_error("invalid number: '" + str + "'");
+	}
+	uint128 res;
+	for(const auto c : str) {
+		res = uint256_t(res) * 10 + uint64_t(c - '0');		// throws on overflow
+	}
+	return res;
+}
+
 
 fixed128::fixed128(const double& v)
 {
@@ -57,8 +69,7 @@ fixed128::fixed128(const std::string& str)
 		if(integer.empty() || integer.find_first_not_of("0123456789") != std::string::npos) {
 			throw std::logic_error("invalid integer part: '" + integer + "'");
 		}
-		fixed = uint128_t(integer, 10);
-		fixed *= divider;
+		fixed = uint256_t(parse_digits(integer)) * divider;
 
 		std::string fract;
 		if(dec_pos != std::string::npos) {
@@ -69,11 +80,11 @@ fixed128::fixed128(const std::string& str)
 			}
 			fract.resize(std::min<size_t>(fract.size(), decimals));
 
-			if(auto lower = uint128_t(fract, 10)) {
+			if(auto lower = parse_digits(fract)) {
 				for(int i = fract.size(); i < decimals; ++i) {
 					lower *= 10;
 				}
-				fixed += lower;
+				fixed = uint256_t(fixed) + lower;
 			}
 		}
 		if(exp_pos != std::string::npos) {
@@ -83,7 +94,7 @@ fixed128::fixed128(const std::string& str)
 			}
 			if(exp_10 >= 0) {
 				for(int i = 0; i < exp_10; ++i) {
-					fixed *= 10;
+					fixed = uint256_t(fixed) * 10;
 				}
 			} else {
 				for(int i = exp_10; i < 0; ++i) {
@@ -92,7 +103,7 @@ fixed128::fixed128(const std::string& str)
 			}
 		}
 	} else {
-		fixed = uint128_t(str, 10) * divider;
+		fixed = uint256_t(parse_digits(str)) * divider;
 	}
 }
 
@@ -127,7 +138,7 @@ uint128 fixed128::to_amount(const int decimals) const
 		}
 	} else {
 		for(int i = fixed128::decimals; i < decimals; ++i) {
-			amount *= 10;
+			amount = uint256_t(amount) * 10;
 		}
 	}
 	return amount;
-- 
2.43.0


From 4ebaab552edfed36f3c22eec42796e12c2fb4a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:58 +0000
Subject: [PATCH 05/18] fix: release pending slot of a discarded VDF

verify_vdf_success() returned early when the VDF chain has reached its maximum
length, without removing the proof from vdf_verify_pending. Every such proof
kept one of the few verification slots for good, until verify_vdfs() did not
verify anything anymore.
---
 src/Node_verify.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Node_verify.cpp b/src/Node_verify.cpp
index 83dd2ea..781cf37 100644
--- a/src/Node_verify.cpp
+++ b/src/Node_verify.cpp
@@ -352,6 +352,8 @@ void Node::verify_vdf_success(std::shared_ptr<const VDF_Point> point, const int6
 	const auto proof = point->proof;
 	const auto chain = find_next_vdf_points(peak);
 
+	vdf_verify_pending.erase(proof->hash);
+
 	bool is_advance = false;
 	if(chain.empty()) {
 		is_advance = point->input == peak->vdf_output;
@@ -377,7 +379,6 @@ void Node::verify_vdf_success(std::shared_ptr<const VDF_Point> point, const int6
 
 	vdf_tree.emplace(point->output, point);
 	vdf_index.emplace(vdf_iters, point);
-	vdf_verify_pending.erase(proof->hash);
 
 	publish(point, output_vdf_points);
 
-- 
2.43.0


From 2376fb8718e1267f0d0c7daf896c38453addab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 06/18] fix: a deleted overlapping block no longer shields the
 next one when loading a table

---
 src/DataBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DataBase.cpp b/src/DataBase.cpp
index 70573df..bb000dc 100644
--- a/src/DataBase.cpp
+++ b/src/DataBase.cpp
@@ -162,11 +162,11 @@ Table::Table(const std::string& root_path, const options_t& options)
 			if(!prev || block->min_version > prev->max_version) {
 				curr_version = block->max_version + 1;
 				blocks.push_back(block);
+				prev = block;
 			} else {
 				block->file.remove();
 				debug_log << "Deleted " << block->name << std::endl;
 			}
-			prev = block;
 		}
 	}
 	last_flush = curr_version;
-- 
2.43.0


From 1b9c5ab22c16518c1ca1981dd84c8778893c5206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:50 +0000
Subject: [PATCH 07/18] fix: table flush keeps the committed version in the
 write log

---
 src/DataBase.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/DataBase.cpp b/src/DataBase.cpp
index bb000dc..07534b3 100644
--- a/src/DataBase.cpp
+++ b/src/DataBase.cpp
@@ -533,6 +533,8 @@ void Table::flush()
 					std::make_shared<db_val_t>(cmd.c_str(), cmd.size()),
 					std::make_shared<db_val_t>(&curr_version, sizeof(curr_version)));
 		}
+		write_log.flush();
+
 		debug_log << "Force flushed at version " << curr_version << std::endl;
 		return;
 	}
@@ -571,6 +573,13 @@ void Table::flush()
 	// clear log after writing block
 	write_log.open("wb");
 	write_log.lock_exclusive();
+	{
+		const std::string cmd = "reset";
+		write_entry_sum(write_log.out, -1,
+				std::make_shared<db_val_t>(cmd.c_str(), cmd.size()),
+				std::make_shared<db_val_t>(&curr_version, sizeof(curr_version)));
+	}
+	write_log.flush();
 
 	debug_log << "Flushed " << block->name << " with " << block->index.size() << " / " << block->total_count
 			<< " entries, min_version = " << block->min_version << ", max_version = " << block->max_version
-- 
2.43.0


From f66d8378040c653cb6f1ad00f3a9740521da9931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:28 +0000
Subject: [PATCH 08/18] fix: iterator seek to the next key no longer skips keys
 when the given key is absent

---
 src/DataBase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DataBase.cpp b/src/DataBase.cpp
index 07534b3..a075b12 100644
--- a/src/DataBase.cpp
+++ b/src/DataBase.cpp
@@ -930,7 +930,7 @@ void Table::Iterator::seek(std::shared_ptr<db_val_t> key, const int mode)
 				iter = mem_index.end();
 			}
 		} else if(mode > 0) {
-			if(iter != mem_index.end()) {
+			if(iter != mem_index.end() && (!key || *iter->first == *key)) {
 				iter++;
 			}
 		}
@@ -975,7 +975,7 @@ void Table::Iterator::seek(const std::list<std::shared_ptr<block_t>>& blocks, st
 			}
 			read_key_at(block->file, block->index[--pos], version, res);
 		}
-		else if(mode > 0) {
+		else if(mode > 0 && (!key || is_match)) {
 			if(pos + 1 >= end) {
 				continue;
 			}
-- 
2.43.0


From 65559439dcda9d18bafb8d217cf734567c09dbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 09/18] fix: converting a contract's return value had no
 recursion or gas limit

A contract value that contains itself (an array holding a reference to
itself) made vm::read() recurse until the stack overflowed, so that calling
a const method of such a contract through the API crashed the node.
---
 src/vm_interface.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/vm_interface.cpp b/src/vm_interface.cpp
index 1bc37e4..9c4c97b 100644
--- a/src/vm_interface.cpp
+++ b/src/vm_interface.cpp
@@ -295,8 +295,14 @@ void assign(std::shared_ptr<vm::Engine> engine, const uint64_t dst, const vnx::V
 	vnx::accept(visitor, value);
 }
 
-vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var)
+vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var, size_t call_depth)
 {
+	if(++call_depth > vm::MAX_COPY_RECURSION) {
+		throw std::runtime_error("convert recursion overflow");
+	}
+	engine->gas_used += INSTR_COST;
+	engine->check_gas();
+
 	if(var) {
 		switch(var->type) {
 			case vm::TYPE_NIL:
@@ -306,7 +312,7 @@ vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var)
 			case vm::TYPE_FALSE:
 				return vnx::Variant(false);
 			case vm::TYPE_REF:
-				return convert(engine, engine->read(((const vm::ref_t*)var)->address));
+				return convert(engine, engine->read(((const vm::ref_t*)var)->address), call_depth);
 			case vm::TYPE_UINT: {
 				const auto& value = ((const vm::uint_t*)var)->value;
 				if(value >> 64 == 0) {
@@ -322,7 +328,7 @@ vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var)
 				const auto array = (const vm::array_t*)var;
 				std::vector<vnx::Variant> tmp;
 				for(uint32_t i = 0; i < array->size; ++i) {
-					tmp.push_back(convert(engine, engine->read_entry(array->address, i)));
+					tmp.push_back(convert(engine, engine->read_entry(array->address, i), call_depth));
 				}
 				return vnx::Variant(tmp);
 			}
@@ -333,7 +339,7 @@ vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var)
 				}
 				std::map<vnx::Variant, vnx::Variant> tmp;
 				for(const auto& entry : engine->find_entries(map->address)) {
-					tmp[convert(engine, engine->read(entry.first))] = convert(engine, entry.second);
+					tmp[convert(engine, engine->read(entry.first), call_depth)] = convert(engine, entry.second, call_depth);
 				}
 				bool is_object = true;
 				for(const auto& entry : tmp) {
@@ -360,7 +366,7 @@ vnx::Variant convert(std::shared_ptr<vm::Engine> engine, const vm::var_t* var)
 
 vnx::Variant read(std::shared_ptr<vm::Engine> engine, const uint64_t address)
 {
-	return convert(engine, engine->read(address));
+	return convert(engine, engine->read(address), 0);
 }
 
 void set_args(std::shared_ptr<vm::Engine> engine, const std::vector<vnx::Variant>& args)
-- 
2.43.0


From d95afccc3099f4b353c6ce4c1376b0096990dc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 10/18] fix: create_account gives a new account the index its
 accounts[] entry has

---
 src/Wallet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Wallet.cpp b/src/Wallet.cpp
index 7f35636..4e5209b 100644
--- a/src/Wallet.cpp
+++ b/src/Wallet.cpp
@@ -963,7 +963,7 @@ void Wallet::create_account(const account_t& config, const vnx::optional<std::st
 	if(config.num_addresses > max_addresses) {
 		throw std::logic_error("num_addresses > max_addresses");
 	}
-	const auto index = std::max<uint32_t>(max_key_files, wallets.size());
+	const uint32_t index = max_key_files + accounts.size();
 	add_account(index, config, passphrase);
 	accounts.push_back(config);
 
-- 
2.43.0


From 7de3ae777fc4afb1ca9e67e53149684b46897d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:57 +0000
Subject: [PATCH 11/18] fix: set_address_count on a removed account wrote past
 the end of the wallet list

---
 src/Wallet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Wallet.cpp b/src/Wallet.cpp
index 4e5209b..9c17168 100644
--- a/src/Wallet.cpp
+++ b/src/Wallet.cpp
@@ -1072,6 +1072,7 @@ void Wallet::set_address_count(const uint32_t& index, const uint32_t& count)
 	{
 		auto config = vnx::read_config_file(path);
 		if(index >= max_key_files) {
+			get_wallet(index);		// removed accounts have no wallet
 			const auto offset = index - max_key_files;
 			if(offset < accounts.size()) {
 				accounts[offset].num_addresses = count;
-- 
2.43.0


From 9fbc5fae927b5a0c903008660304b94ef059f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:07 +0000
Subject: [PATCH 12/18] fix: timelord restarted the VDF from a zero output when
 the infusion point was no longer in its history

---
 src/TimeLord.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/TimeLord.cpp b/src/TimeLord.cpp
index d139b59..1fc29fd 100644
--- a/src/TimeLord.cpp
+++ b/src/TimeLord.cpp
@@ -151,11 +151,15 @@ void TimeLord::handle(std::shared_ptr<const IntervalRequest> req)
 		infuse[start] = req->infuse;
 
 		if(is_fork) {
-			vdf_point_t begin;
-			begin.output = history[start];
-			begin.num_iters = start;
-			peak = std::make_shared<vdf_point_t>(begin);
-			is_reset = true;
+			// can only restart from a known output
+			const auto output = find_value(history, start);
+			if(output) {
+				vdf_point_t begin;
+				begin.output = *output;
+				begin.num_iters = start;
+				peak = std::make_shared<vdf_point_t>(begin);
+				is_reset = true;
+			}
 		}
 	}
 
-- 
2.43.0


From 90b5a6747a685dd27e6dbab10219735cdebd323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:55 +0000
Subject: [PATCH 13/18] fix: reject a token index outside the pair in swap
 trade estimates

---
 src/WebAPI.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/WebAPI.cpp b/src/WebAPI.cpp
index 1f2b7b7..8a9c5af 100644
--- a/src/WebAPI.cpp
+++ b/src/WebAPI.cpp
@@ -1551,6 +1551,9 @@ void WebAPI::http_request_async(std::shared_ptr<const vnx::addons::HttpRequest>
 			const auto index = vnx::from_string_value<uint32_t>(iter_index->second);
 			const auto value = vnx::from_string_value<fixed128>(iter_amount->second);
 			const auto num_iter = iter_iters != query.end() ? vnx::from_string_value<int32_t>(iter_iters->second) : 20;
+			if(index > 1) {
+				throw std::logic_error("invalid token index");
+			}
 			node->get_swap_info(address,
 				[this, request_id, index, value, num_iter](const swap_info_t& info) {
 					get_context({info.tokens[0], info.tokens[1]}, request_id,
-- 
2.43.0


From 59b9d494d8ccf79b7063477f6b7bcf97fd11d1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:55 +0000
Subject: [PATCH 14/18] fix: read_storage() honours the requested height

---
 src/Node_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Node_api.cpp b/src/Node_api.cpp
index 40f2e55..bc9ec29 100644
--- a/src/Node_api.cpp
+++ b/src/Node_api.cpp
@@ -791,7 +791,7 @@ std::map<std::string, vm::varptr_t> Node::read_storage(const addr_t& contract, c
 	if(auto exec = std::dynamic_pointer_cast<const contract::Executable>(get_contract(contract))) {
 		if(auto bin = std::dynamic_pointer_cast<const contract::Binary>(get_contract(exec->binary))) {
 			for(const auto& entry : bin->fields) {
-				if(auto var = storage->read(contract, entry.second)) {
+				if(auto var = storage->read_ex(contract, entry.second, height)) {
 					out[entry.first] = std::move(var);
 				}
 			}
-- 
2.43.0


From 4cc1b369e56c861458461348a0f34971324642ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:55 +0000
Subject: [PATCH 15/18] fix: get_swap_info() does not read past a short volume
 array

---
 src/Node_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Node_api.cpp b/src/Node_api.cpp
index bc9ec29..0b70c16 100644
--- a/src/Node_api.cpp
+++ b/src/Node_api.cpp
@@ -1240,7 +1240,7 @@ swap_info_t Node::get_swap_info(const addr_t& address) const
 	const auto ref_volume = to_ref(data["volume"]);
 	const auto tokens = read_storage_array(address, to_ref(data["tokens"]));
 	const auto volume = read_storage_array(address, ref_volume);
-	for(size_t i = 0; i < 2 && i < tokens.size(); ++i) {
+	for(size_t i = 0; i < 2 && i < tokens.size() && i < volume.size(); ++i) {
 		out.tokens[i] = to_addr(tokens[i]);
 		out.volume[i] = to_uint(volume[i]);
 		out.wallet[i] = get_balance(address, out.tokens[i]);
-- 
2.43.0


From 0fa5172533602419373248fd9a544773bbafa7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:03 +0000
Subject: [PATCH 16/18] fix: reject a token index outside the pair in
 get_swap_trade_estimate()

---
 src/Node_api.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Node_api.cpp b/src/Node_api.cpp
index 0b70c16..7987a8d 100644
--- a/src/Node_api.cpp
+++ b/src/Node_api.cpp
@@ -1408,6 +1408,9 @@ std::vector<swap_entry_t> Node::get_swap_history(const addr_t& address, const in
 std::array<uint128, 2> Node::get_swap_trade_estimate(const addr_t& address, const uint32_t& i, const uint128& amount, const int32_t& num_iter) const
 {
 	const auto info = get_swap_info(address);
+	if(i >= info.tokens.size()) {
+		throw std::logic_error("invalid token index");
+	}
 
 	std::vector<vnx::Variant> args;
 	args.emplace_back(i);
-- 
2.43.0


From b6efedbe7e626c5e7f1ed76da01efb643b9f71cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:57 +0000
Subject: [PATCH 17/18] fix: poker show() compares hands, not already computed
 ranks

check_win() takes two hands of five cards, but show() gave it the result of get_rank(), so the second player to show
always failed with "hand must be 5 cards" and lost the pot.
---
 src/contract/poker.js | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/contract/poker.js b/src/contract/poker.js
index c6df73e..b4dbdd5 100644
--- a/src/contract/poker.js
+++ b/src/contract/poker.js
@@ -219,18 +219,17 @@ function show(hand, private_seed) public
         assert(i < 7, "invalid card index");
         push(cards, all_cards[i]);
     }
-    const rank = get_rank(cards);
 
     if(winning_hand) {
-        const res = check_win(rank, winning_hand);
+        const res = check_win(cards, winning_hand);
         if(res == "GT") {
-            winning_hand = rank;
+            winning_hand = cards;
             winning_players = [player];
         } else if(res == "EQ") {
             push(winning_players, player);
         }
     } else {
-        winning_hand = rank;
+        winning_hand = cards;
         winning_players = [player];
     }
     num_reveals++;
-- 
2.43.0


From 2747b4f0f89b04614551616e0fa9853878772088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:57 +0000
Subject: [PATCH 18/18] fix: poker show() rejects a card used more than once

A player could show for example [5, 5, 5, 5, 6] and claim four of a kind from a single pocket card.
---
 src/contract/poker.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/contract/poker.js b/src/contract/poker.js
index b4dbdd5..0fb104b 100644
--- a/src/contract/poker.js
+++ b/src/contract/poker.js
@@ -215,8 +215,11 @@ function show(hand, private_seed) public
     const all_cards = concat(board, pocket);
 
     const cards = [];
+    const used = {};
     for(const i of hand) {
         assert(i < 7, "invalid card index");
+        assert(!used[i], "duplicate card index");
+        used[i] = true;
         push(cards, all_cards[i]);
     }
 
-- 
2.43.0

