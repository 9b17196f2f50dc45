prop('K01', 'Addresses, keys and seed words convert to and from text without loss or doubt',
 'An address parses only if its text is a checksummed encoding of the right kind and length, and printing and parsing it give back the same value; hashes, public keys and key material convert with all their bytes in order and are rejected when their size or content is wrong. Seed words stand for exactly one seed including its checksum: a word list of the wrong length, with an unknown word or a wrong checksum is refused. Secret keys are wiped when released.',
 'inputs', 'all addresses, texts, word lists, byte strings and keys', BUILD + 'a lost bit, a swapped byte or a missing checksum test shows only for particular values.',
 ['src/addr_t.cpp', 'src/mnemonic.cpp', 'src/hash_t.cpp', 'src/pubkey_t.cpp', 'src/signature_t.cpp', 'include/mmx/bytes_t.hpp', 'include/mmx/skey_t.hpp'],
 [('address text', 'src/addr_t.cpp: to_string, from_string, vnx::read'), ('seed words', 'src/mnemonic.cpp'), ('byte strings', 'include/mmx/bytes_t.hpp'), ('keys', 'src/pubkey_t.cpp, include/mmx/skey_t.hpp')])
prop('E03', 'Contract values and contract code read back exactly as they were written',
 'Every contract value is written with its type, reference count and flags when asked for, in the smallest size that holds it, and is read back as the same value or refused when the bytes are too short or the type is unknown; comparing, cloning and converting values treats each type as specified. Instructions are written and read with exactly the operands their operation has, through a table of repeated symbols that both sides build the same way; an unknown version, an oversized table or a symbol outside the table is refused.',
 'inputs', 'all values, instructions and byte strings', BUILD + 'a wrong width, offset or missing length test needs a value at a particular boundary.',
 ['src/vm/var_t.cpp', 'src/vm/varptr_t.cpp', 'src/vm/instr_t.cpp', 'include/mmx/vm/var_t.h'],
 [('values', 'src/vm/var_t.cpp: serialize, deserialize, compare, clone, to_*; src/vm/varptr_t.cpp'), ('code', 'src/vm/instr_t.cpp: serialize, deserialize')])
prop('E01', 'Contract memory keeps its rules: constants, references, deletion, gas',
 'While a contract runs, constants and protected values cannot be overwritten or deleted, external inputs cannot be written after setup, reading a deleted or absent value yields nothing, and a referenced value is copied with its reference counts adjusted and never freed while still referenced. Values and map entries stored earlier are seen unless changed in this run, every allocation, copy and deletion is charged to the gas limit with bounded recursion, and at the end exactly the changed static values and entries are written to storage after the stack was cleared.',
 'histories', 'all sequences of reads, writes, allocations and deletions by any contract', BUILD + 'a missed flag or count shows only after a particular sequence of operations on stored, referenced or deleted values.',
 ['src/vm/Engine.cpp', 'include/mmx/vm/Engine.h'],
 [('values', 'Engine::assign, write, read, erase, clear, addref, unref, alloc'), ('entries', 'Engine::write_entry, read_entry, erase_entry, erase_entries, find_entries, write_key, read_key, lookup'), ('commit', 'Engine::commit, clear_stack, init')])
prop('E04', 'Every contract instruction does what it is specified to do',
 'Each instruction reads and writes the operands its flags select relative to the current call frame, computes the specified result (checked arithmetic when asked for, no division by zero, comparison, bitwise operations, conversion, concatenation, slices, hashing, signature checks) and is charged its cost, with the gas limit enforced. Jumps stay inside the code, calls and returns keep a bounded frame stack, and payments, minting and balance reads move exactly the requested amount within the balance available or fail the execution.',
 'inputs', 'all contract programs and operand values', BUILD + 'a wrong operand, overflow test or amount shows only for a particular instruction and operand.',
 ['src/vm/Engine.cpp', 'include/mmx/vm/Engine.h'],
 [('instructions', 'Engine::exec, get, set, concat, memcpy, sha256, verify, conv, is_true'), ('control', 'Engine::run, step, begin, jump, call, ret, deref, deref_addr, deref_value'), ('payments', 'Engine::send, mint, get_balance, read_balance, rcall, cread, log, event')])
prop('E02', 'Contract storage: reads see the latest write, read-only calls cannot write',
 'A contract reads back exactly what was last written for its own address and key, first from the changes of the running block and otherwise from disk at the right height, and one contract or key is never confused with another, in memory or in the on-disk key layout. Every access is charged to the gas limit before its result is used, a read-only call gets constant values and cannot write, invalid values (references to temporary memory, unprotected keys, counted entries) are refused, and committing hands every buffered value, entry and balance to the layer below.',
 'histories', 'all sequences of storage operations by all contracts', BUILD + 'a wrong key, a missed layer or an uncharged access shows only for particular addresses and histories.',
 ['src/vm/StorageProxy.cpp', 'src/vm/StorageCache.cpp', 'src/vm/StorageRAM.cpp', 'src/vm/StorageDB.cpp'],
 [('charged access', 'src/vm/StorageProxy.cpp: read, write, lookup, get_balance, read_ex'), ('cache', 'src/vm/StorageCache.cpp: read, lookup, commit'), ('memory', 'src/vm/StorageRAM.cpp'), ('disk', 'src/vm/StorageDB.cpp: get_key, write_entry_key, write_index_key, read_ex, find_range, find_entries')])
prop('E05', 'Values cross the contract boundary unchanged and within limits',
 'Loading a contract puts its constants in constant memory in order or fails when they do not fit, and arguments, deposits and return values are converted element by element to the specified type, with negative numbers, floating point numbers and unusable keys refused. Copying values between contracts and converting them for callers is bounded in depth and charged to the gas limit, even for values that contain themselves, and a method call commits its changes only if it is not a constant method and the caller asked for it.',
 'inputs', 'all argument and return values, including cyclic and deeply nested ones', BUILD + 'needs nested, cyclic or boundary values passed through particular calls.',
 ['src/vm_interface.cpp'],
 [('load and execute', 'src/vm_interface.cpp: load, read_constants, execute, set_args, set_deposit'), ('copy', 'src/vm_interface.cpp: copy'), ('conversion', 'src/vm_interface.cpp: AssignTo, assign, convert, read')])
prop('W01', 'A locked wallet signs nothing; keys come only from the right passphrase',
 'A wallet signs messages and transactions only while it is unlocked; when a passphrase is given just for one operation the wallet is locked again afterwards, also when that operation fails, and locking wipes the private keys from memory. Keys are derived only after the passphrase matched the stored finger print or the known first address, a transaction gets exactly one signature per owner over its final id, and creating, importing or removing an account never replaces a key file of another seed and always acts on the account that was asked for.',
 'histories', 'all sequences of wallet operations, failures included', BUILD + 'keys left in memory or a wallet left unlocked show only after a particular failure or sequence.',
 ['include/mmx/ECDSA_Wallet.h', 'src/Wallet.cpp'],
 [('keys', 'ECDSA_Wallet::lock, unlock, is_locked, sign_msg, sign_off'), ('accounts', 'Wallet::add_account, create_account, import_wallet, remove_account, set_address_count, unlock')])
prop('W02', 'Wallet spends exactly what was asked, never more than is available',
 'A wallet transaction carries exactly the requested outputs, deposits and calls with the options given, and the inputs added to fund it take, per address and currency, no more than the balance that is left after pending and reserved amounts, or the operation fails with nothing sent. Zero amounts and zero addresses are refused, a transaction is sent only if it is fully signed and sending was asked for, and amounts in transactions sent are held back until those confirm or expire.',
 'histories', 'all balances, pending transactions and requests', BUILD + 'double counting or a missing check shows only for particular balances and earlier transactions.',
 ['include/mmx/ECDSA_Wallet.h', 'src/Wallet.cpp'],
 [('funding', 'ECDSA_Wallet::gather_inputs, complete'), ('pending', 'ECDSA_Wallet::update_cache, update_from'), ('requests', 'Wallet::send*, deploy, execute, deposit, make_offer, accept_offer, swap_*, send_off')])
prop('F01', 'Farmers and timelords sign only what they were asked to, with the right key',
 'A farmer signs a block, vote, proof or partial only with the private key of the farmer key it names, after its own payout data was filled in and the final hash computed, refuses unknown keys and missing proofs, and counts pool answers as given. A timelord runs the delay function only from a known output, applies each infusion exactly at its point, answers a request only from an unbroken recorded run between its start and end, and restarts when an infusion changed or another timelord is ahead.',
 'schedules', 'all requests, pool answers and interleavings of the delay loop with requests', BUILD + 'a wrong field order or a missed restart shows only for particular requests and timing.',
 ['src/Farmer.cpp', 'src/TimeLord.cpp'],
 [('farmer', 'Farmer::sign_block, sign_vote, handle, get_skey, query_difficulty'), ('timelord', 'TimeLord::handle, update, vdf_loop, compute, start_vdf, stop_vdf')])
prop('F02', 'Harvester answers a challenge only with proofs that qualify',
 'A harvester looks up every loaded plot that passes the filter for each new challenge once, drops challenges past the deadline, and publishes a proof only if its quality meets the block difficulty, or a partial only for a locked pool plot that meets the partial difficulty of that pool, with all fields taken from the plot and the challenge. Plots are loaded only with a known farmer key and a permitted size, counted once each, and forgotten when their file is gone.',
 'inputs', 'all challenges, plots and pool settings', BUILD + 'a wrong difficulty or field shows only for particular plots and heights.',
 ['src/Harvester.cpp'],
 [('lookup', 'Harvester::handle, check_queue, lookup_task, send_response, fetch_full_proof'), ('plots', 'Harvester::reload, find_plot_dirs, update, update_nfts')])
prop('R01', 'Network messages: checked before use, relayed at most once, requests limited',
 'A message from a peer reaches this node and other peers only if it is well-formed, is not a replay of something old, and was not seen before; a malformed one gets the peer disconnected. Blocks, proofs and votes are relayed only as the sender is known to have earned it, a transaction with results attached is refused, private origin details are removed before sending, and a peer can only call the fixed list of read requests; a node id is believed only if its signature over the challenge sent to it verifies.',
 'histories', 'all messages from all peers in any order', BUILD + 'needs a hostile or duplicated message at a particular moment.',
 ['src/Router.cpp'],
 [('received', 'Router::on_vdf, on_block, on_proof, on_transaction, on_vote, on_vdf_point, receive_msg_hash'), ('sent', 'Router::handle, relay, broadcast, send_to, send_all'), ('requests', 'Router::on_request, on_return, on_msg')])
prop('R02', 'Peers and sync: banned peers stay out, blocks fetched are answered and checked',
 'A banned or self connection is dropped, a lost connection leaves no trace of the peer in any list, and peers are connected, dropped and discovered within the configured limits. A sync request is answered exactly once, with each valid block received only once per hash, after enough peers answered or failed, and a failed or slow peer is replaced by another rather than waited for forever.',
 'histories', 'all sequences of connects, disconnects, answers and timeouts', BUILD + 'needs a particular sequence of peer failures and answers.',
 ['src/Router.cpp'],
 [('peers', 'Router::on_connect, on_disconnect, ban_peer, kick_peer, connect, discover, update'), ('sync', 'Router::get_blocks_at_async, fetch_block_async, fetch_block_at_async, process')])

prop('H04', 'Canonical encoding: each value is written with its kind and its length',
 'The byte encoding that all content hashes are taken over writes every field under its name, every container and text as its kind, its element count and then each element in order, and every number as 8 (or 16) little-endian bytes. Since version 1 of the encoding, variant values carry their type, so values of different type never encode alike. No field, element or length is left out, so that two different values give different bytes.',
 'inputs', 'all encodable values: numbers, texts, byte strings, variants, objects, containers, inputs, outputs, fractions, methods', BUILD + 'two values that encode alike are one pair among all pairs.',
 ['include/mmx/write_bytes.h'], [('encoders', 'include/mmx/write_bytes.h: write_bytes, write_bytes_ex, write_field, write_field_ex')])

prop('D03', 'Typed tables: keys keep their order and ranges return exactly their part',
 'A typed table stores each key in a byte form that has a fixed size, orders like the key itself and reads back as the same key, refusing stored keys of another size. Looking up a key, a range, the first or last entry or the newest entries of a range gives exactly the stored entries of that range, in key order (or reverse), up to the given limit, and a table with several values per key numbers them in insertion order without overwriting one. Commits, reverts and flushes reach the database unchanged.',
 'inputs histories', 'all key and value types used by the node and the wallet, all ranges and limits', BUILD + 'a wrong byte order or a bound off by one shows only for particular keys.',
 ['include/mmx/table.h', 'include/mmx/multi_table.h', 'src/table.cpp'], [('typed tables', 'include/mmx/table.h: table, uint_table, uint_uint_table, hash_table, hash_uint_table, hash_uint_uint_table, balance_table_t'), ('multi tables', 'include/mmx/multi_table.h')])
prop('A01', 'Queries report what the chain holds: blocks, transactions, balances, state',
 'A query for a block, header, transaction, contract, balance, history or farmed block returns what the stored chain (and the transaction pool, only when asked for) holds for exactly the given identifier, address, height range, type, currency and limit, or nothing. Stored contract state is read at the height asked for, gas for reading a contract is charged before it is read, and total supply is what was created less what was burned. Address lists are counted once per address.',
 'inputs histories', 'all queries on all chains', BUILD + 'an answer for the wrong height, address or range is only seen by comparing with the chain.',
 ['src/Node_api.cpp'], [('chain queries', 'src/Node_api.cpp: get_block*, get_header*, get_tx*, get_transaction*, get_history*'), ('balances', 'src/Node_api.cpp: get_balance*, get_total_balances, get_all_balances, get_total_supply'), ('contract state', 'src/Node_api.cpp: get_contract*, read_storage*, dump_storage')])
prop('A02', 'Read-only calls, pool partials, offers and swaps are answered correctly',
 'A read-only contract call runs the named method of exactly that contract, with its declared access rights, under a gas limit, with the caller, deposit, height and network it was given, and reports failure as an error. A pool partial is accepted only if it is signed by the farmer key of its proof, answers the challenge of a height already reached, proves its space at its claimed difficulty and, for a pool, comes from a plot contract pointing at that pool. Offer, trade and swap queries report the stored currencies, balances, prices, fees and volumes of exactly the requested contracts, and indices from outside are checked before use.',
 'inputs histories', 'all calls, partials, offers, swaps and query parameters', BUILD + 'a missing test only shows on a forged partial or an unusual contract.',
 ['src/Node_api.cpp'], [('calls', 'src/Node_api.cpp: call_contract, get_plot_nft_target, get_plot_nft_info'), ('partials', 'src/Node_api.cpp: verify_partial, verify_plot_nft_target'), ('offers and swaps', 'src/Node_api.cpp: get_offer*, fetch_offers, get_trade_history*, get_swap*')])

prop('A03', 'Web API: each request needs the session and permission it is meant for',
 'A web request that reads or changes the configuration, the wallet, the farmer, the node or the logs is carried out only for a live session with the permission meant for that kind of request, and only with the HTTP method meant for it. Each path performs exactly its own operation with the parameters of that request, after the required ones are present and within bounds, and otherwise answers with an error. Balances, blocks and transactions are listed for exactly the requested range, and logs and proofs are kept up to their limit.',
 'inputs histories', 'all requests, sessions, permissions and parameters', BUILD + 'a missing permission test or a swapped parameter shows only for one path and one kind of session.',
 ['src/WebAPI.cpp'], [('requests', 'src/WebAPI.cpp: http_request_async, require, respond*'), ('rendering', 'src/WebAPI.cpp: render_headers, render_blocks, render_transactions, render_balances, resolve_vm_varptr'), ('state', 'src/WebAPI.cpp: handle, update, get_context')])
