BUILD = 'The node is not built here (submodules missing) and no stable test runs it; '
prop('N01', 'A block is accepted only if every header rule and every transaction holds',
 'A block passes validation only if its header follows from its parent (height, state link, time stamp bounds, difficulty, rewards, votes, fee buffer, project address), its size and cost stay below the limits, its transactions are unique, executable in order, pay at least the minimum fee and are covered by the balances left by earlier transactions in the same block.',
 'inputs histories', 'all blocks and all chain states', BUILD + 'a missing check shows only on the one block that exploits it.',
 ['src/Node_validate.cpp'], [('block validation', 'src/Node_validate.cpp: Node::validate(Block)')])
prop('N02', 'A transaction takes effect only if every rule of its execution context holds',
 'A transaction passes validation in a given chain state only if it has not expired, its nonce and network match, its sender, owners and operations are authorised by the contracts they name, its fee and gas stay within what it offers, its inputs cover its outputs exactly and every output, deployment and operation is legal at that height. The recorded result reports exactly the inputs, outputs, fees and errors that this execution produced. A failing transaction only ever costs its sender the fee of what ran.',
 'inputs histories', 'all transactions, chain states and heights', BUILD + 'each missing check only shows on the one transaction that exploits it.',
 ['src/Node_validate.cpp'], [('transaction validation', 'src/Node_validate.cpp: Node::validate(Transaction)')])
prop('N03', 'Ill-formed transactions and contracts are rejected and priced by fixed rules',
 'A transaction, operation, output or contract whose own content is ill-formed (wrong version, zero address or amount, bad id, wrong hash, too long memo or name, forbidden flags) is never considered valid. Its static cost is the sum of the fixed prices of everything it contains, so that no element is free.',
 'inputs', 'all transactions, operations, inputs, outputs and contracts', BUILD + 'one forgotten field among many is only visible on a specially built object.',
 ['src/Transaction.cpp', 'src/operation', 'src/contract', 'src/solution'], [('validity and cost', 'is_valid, calc_cost, num_bytes of transactions, operations, solutions and contracts')])
prop('H01', 'Hashes of transactions and their parts cover every field that carries meaning',
 'The identifying hash of a transaction, operation, solution, output and contract covers every field that gives it meaning, in a fixed unambiguous encoding with the type first, so that no field can be altered without changing the hash. The full hash of a transaction also covers signatures and the execution result.',
 'inputs', 'all transactions and parts', BUILD + 'a field left out of a hash changes no result until somebody alters it.',
 ['src/Transaction.cpp', 'src/operation', 'src/solution', 'src/contract', 'include/mmx/write_bytes.h'], [('hash encodings', 'hash_serialize, calc_hash, calc_id, write_bytes/write_field')])
prop('H02', 'A block header hash and signature cover the whole header and its content',
 'The hash of a block header covers every header field, the transaction root covers every transaction in order, and the content hash also covers the farmer signature. A header is valid only if the stored hashes match, and its signature is valid only for the hash of this header under the key of its proof; the totals (fees, cost, size, inputs, outputs) are taken over all transactions of the block.',
 'inputs', 'all blocks', BUILD + 'a field left out of the hash or a sum only shows on a block that exploits it.',
 ['src/BlockHeader.cpp', 'src/Block.cpp'], [('header and block', 'src/BlockHeader.cpp, src/Block.cpp')])
prop('H03', 'Hashes and signatures of proofs, votes and time points cover what they vouch for',
 'The hash of a proof of space, proof response, validator vote, time point and partial covers every field it vouches for, and each validity test accepts it only if the stored hash and the signature over it, under the key it names, both match.',
 'inputs', 'all proofs, votes, responses and time points', BUILD + 'a field left out of a hash or an unchecked signature only shows on a forged message.',
 ['src/ProofOfSpace.cpp', 'src/ProofOfSpaceNFT.cpp', 'src/ProofOfSpaceOG.cpp', 'src/ProofResponse.cpp', 'src/ValidatorVote.cpp', 'src/VDF_Point.cpp', 'src/Partial.cpp'], [('proof and vote hashes', 'calc_hash, calc_proof_hash, is_valid, validate of the listed classes')])

prop('N04', 'Funds and contracts are released only by the signatures their owners demand',
 'A single-key address accepts only a signature by the key it was derived from over exactly the given message, and a multi-signature address only enough such signatures by distinct registered owners. A signature counts as valid only if the elliptic-curve check accepted that very key, message and signature, whether or not an earlier result is remembered; a contract type without rules of its own never authorises anything.',
 'inputs histories', 'all keys, messages, signatures and owner sets', BUILD + 'a forged or re-used signature is one input among 2^512.',
 ['src/contract/PubKey.cpp', 'src/contract/MultiSig.cpp', 'src/signature_t.cpp', 'src/pubkey_t.cpp', 'src/Contract.cpp'], [('authorisation', 'PubKey::validate, MultiSig::validate, signature_t::verify')])
prop('N05', 'A contract call runs only with paid gas, credited deposits and permitted access',
 'Every operation of a transaction is executed only after its gas is bounded by what the sender pays for, its contract exists and is not locked, the called method exists and may be called that way, and a deposit is credited to the contract before the code sees it. Calls from one contract into another follow the same rules with the caller recorded as user, and transactions that touch the same contract wait for each other in block order.',
 'inputs schedules', 'all operations, contracts and thread schedules of one block', BUILD + 'a missing rule only shows on a contract written to exploit it, a missing wait only under one interleaving.',
 ['src/Node_validate.cpp'], [('operation execution', 'src/Node_validate.cpp: execute, execution_context_t')])
prop('U01', 'Difficulty, weight, rewards and challenges follow the fixed consensus formulas',
 'Difficulty adjustment, effective space, proof thresholds, block weight, rewards, fee buffer and challenge derivation are computed by the one fixed formula each node must agree on, in integer arithmetic wide enough for the product it forms, and never leave their stated minimum and maximum.',
 'inputs', 'all parameters and chain histories', BUILD + 'one rounding or clamp that differs splits the chain only at particular values.',
 ['include/mmx/utils.h'], [('consensus arithmetic', 'include/mmx/utils.h')])
prop('U02', 'Fees and amounts are converted exactly or refused',
 'Converting cost to fee, fee to cost and a decimal number to an integer amount yields the exact rounded-down product, and is refused if the result does not fit or the input is negative, not a number or beyond range. Deposits implied by a contract call are recorded with their full amount and currency only where the rules ask for it.',
 'inputs', 'all costs, fees, ratios and numbers', BUILD + 'overflow needs amounts no sample uses.',
 ['include/mmx/utils.h'], [('conversions', 'include/mmx/utils.h: cost_to_fee, fee_to_cost, to_amount, handle_implicit_deposit')])
prop('U03', 'Decimal text is turned into amounts exactly or refused',
 'A decimal text is accepted as an amount only if every part of it consists of digits, and then yields exactly the number it spells, rounded down at 15 decimals; a number that does not fit 128 bits after scaling is refused instead of wrapped. Printing an amount and scaling it to the decimals of a currency follow the same fixed-point rule.',
 'inputs', 'all texts, amounts and decimals', BUILD + 'overflow and malformed digits need unusual text.',
 ['src/fixed128.cpp', 'include/mmx/fixed128.hpp', 'src/uint128.cpp'], [('fixed point numbers', 'src/fixed128.cpp, src/uint128.cpp')])

prop('N06', 'Applying, reverting and committing blocks keeps the ledger exact',
 'Applying a block records exactly its transactions, balance changes, contract changes, logs and index entries under its height, or nothing if it does not extend the current state; reverting to a height removes exactly what later blocks added and reloads the balances of the remaining state; committing keeps the final block and drops only what can no longer be reverted. A block read back from disk is the block that was written.',
 'histories crash-points', 'all sequences of apply, revert and commit', BUILD + 'a forgotten table or a wrong order shows only after a particular history.',
 ['src/Node.cpp'], [('ledger state', 'src/Node.cpp: apply, apply_output/execute, commit, revert, reset, write_block, read_block, init_chain, prepare_context')])
prop('N07', 'A block is credited only with proofs of space that verify',
 'A proof is accepted only if its plot meets the size limits and filter of its height, the recomputed proof is the one it claims, its quality reaches the threshold of its difficulty, its challenge and time are those of the chain it extends, and its score and difficulty are the computed ones. Every table of a proof is rebuilt from the given values with matching neighbours, and exactly one full proof must come out.',
 'inputs', 'all proofs, plots, challenges and block headers', BUILD + 'a proof that exploits a missing check has to be built for it.',
 ['src/Node_verify.cpp', 'src/pos/verify.cpp', 'src/pos/verify_full.cpp'], [('proof verification', 'Node::verify_proof, add_proof, verify; pos::verify, compute, check_post_filter')])
prop('N08', 'Time proofs are verified completely and every outcome frees its slot',
 'A time proof is accepted only if its segments are non-empty, sum to the claimed number of iterations, meet the size limits and recompute to exactly the stored points with the infused values; a point from an untrusted or failing source is never used. A verification slot taken for a time proof is released on success, failure and discard alike, and queued blocks, proofs and votes are handled once their time has come or dropped.',
 'inputs histories schedules', 'all time proofs, queues and outcomes', BUILD + 'a leaked slot or a skipped segment shows only on a rare outcome.',
 ['src/Node_verify.cpp', 'src/Node_update.cpp'], [('time proofs', 'src/Node_verify.cpp, src/Node_update.cpp: verify_vdf, verify_vdf_cpu, verify_vdf_task, verify_vdf_success/failed, verify_vdfs, verify_proofs, verify_votes, verify_block_proofs')])
prop('N09', 'The best fork wins by weight and votes, and switching forks is all or nothing',
 'Among the known forks only valid ones compete; the chain with the best final vote and weight is chosen by the same total order on every node, votes count only from the validators of that height and at most once. Switching to a fork goes back to the common ancestor and applies each block in order, and an invalid block is disconnected with everything built on it while the previous state is restored.',
 'histories schedules', 'all fork trees and vote sets', BUILD + 'fork choice needs competing blocks in a particular arrival order.',
 ['src/Node.cpp', 'src/Node_verify.cpp'], [('fork choice', 'src/Node.cpp: find_best_fork, get_fork_line, fork_to, find_fork, purge_tree, update_votes, get_validators, ...')])
prop('N10', 'Challenges, infusion, time points and rewards follow the chain they belong to',
 'The challenge and space difficulty valid at a distance from a block, the infused value and iteration count of a time segment, the time points of a block and its reward are all read from the ancestors the rules name, and are not given when the chain is too short to define them. Time points form one gapless chain from the block\'s parent to its peak.',
 'histories', 'all chains and offsets', BUILD + 'an off-by-one shows only at a boundary of the chain.',
 ['src/Node.cpp'], [('chain lookups', 'src/Node.cpp: find_challenge, find_infusion, find_vdf_points, find_next_vdf_points, calc_block_reward, find_prev, ...')])
prop('N11', 'The pool holds only transactions that can still be included',
 'A transaction enters the pool only after validation succeeded, and a failed, expired, included or unaffordable one is removed along with its share of the pending fees of its sender. The transactions offered for a block are valid at that height, ordered by fee, spend no sender below zero and no shared nonce or contract conflict, and stay below the size and cost limits of a block.',
 'histories', 'all pools and arrival orders', BUILD + 'accounting drift needs a long history.',
 ['src/Node.cpp', 'src/Node_validate.cpp'], [('transaction pool', 'tx_pool_update, tx_pool_erase, purge_tx_pool, validate_new, validate_for_block, ...')])
prop('N12', 'New blocks and state updates obey the rules the node demands of others',
 'A block made by the node takes its header fields from its parent and the best proof, contains only pool transactions that validated for it, and is signed by the farmer owning that proof or not published at all. The periodic update commits only blocks deep enough and agreed upon, votes at most once per height and proof, and requests new work only from its own peak.',
 'histories schedules', 'all node states', BUILD + 'making blocks needs farmers, time lords and peers.',
 ['src/Node_update.cpp'], [('block making', 'src/Node_update.cpp: update, make_block')])
prop('N13', 'Synchronisation fetches every height and never adopts unverified history',
 'During synchronisation the node requests consecutive heights without gaps and bounded in number, retries or fails on missing ones, and hands each received block to the same entry that checks and verifies any other block. A node that is stuck or forked goes back a bounded distance and starts over instead of adopting unverified history.',
 'histories schedules', 'all peers\' answers and timings', BUILD + 'a lost height shows only on one answer pattern.',
 ['src/Node.cpp'], [('synchronisation', 'Node::start_sync, sync_more, sync_result, fetch_result, on_stuck_timeout, handle(Block)')])
