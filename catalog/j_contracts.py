CJ = 'Contract code runs for anyone who pays for a transaction, with any arguments, in any order; '
JN = 'The contract source (a JavaScript dialect) is rewritten as C++ text with the same lines (analyzer/jsx.js) and analysed by the same guard and effect analysis; arithmetic is taken not to wrap, as in the contract machine.'
def cprop(id, title, statement, text, why, files, mech, state=()):
    prop(id, title, statement, 'inputs histories', text, CJ + why, ['src/contract/%s.js' % f for f in files], mech, note=JN, state=state)

cprop('J01', 'Swap contract: traders, liquidity providers and fees get exactly their due',
 'A trade pays out only what the constant-product formula of the pools gives for the deposit, less the fee of the pool used, never less than the minimum asked for, and is recorded in the balances, volume and fees of that pool. A liquidity provider can take out at most its own share, not before its lock time is over, together with its part of the fees earned while it was in the pool, once. Only the documented entry points are public, deposits are taken only in the two tokens of the swap, and nothing else moves funds.',
 'all sequences of deposits, trades, withdrawals, payouts and pool switches by all users, with all amounts',
 'a wrong share, fee or lock shows only for particular pool balances or a particular order of calls.',
 ['swap'], [('trading', 'src/contract/swap.js: trade'), ('liquidity', 'src/contract/swap.js: add_liquid, rem_liquid, rem_all_liquid, switch_pool'), ('fees', 'src/contract/swap.js: payout, get_earned_fees')])
cprop('J02', 'Offer contracts: trades happen at the owner\'s price, only the owner takes back',
 'A token offer or NFT offer gives its goods only for a deposit in the asked currency at the current price, which the buyer has to name, and only to the chosen partner if one is set; what is paid and what is returned follows exactly from the price. Only the owner may deposit, cancel, withdraw, recover or change the price, and a price change is refused within the update interval of the last one. Owner, currencies and price come from the constructor, which refuses a zero price.',
 'all sequences of calls by all users with all deposits, prices and heights',
 'paying out for the wrong currency, a stale price or a wrong user shows only for that particular call.',
 ['offer', 'nft_offer'], [('trade and accept', 'src/contract/offer.js, nft_offer.js: trade, accept'), ('owner', 'src/contract/offer.js, nft_offer.js: cancel, withdraw, recover, set_price, deposit')])
cprop('J03', 'Token and NFT contracts mint only for those entitled, an NFT only once',
 'Tokens are minted only by the owner, or for a deposit in the right currency at the fixed price; tokens sold back are paid by the set ratio and burned. An NFT is minted once, by its creator only, and a serial number of a series is added once, with a valid signature of the creator over the series address and serial. Ownership changes and recovery of stray funds are for the owner only.',
 'all sequences of calls by all users with all arguments', 'minting for a stranger or twice shows only for that particular call.',
 ['token', 'nft', 'template', 'fixed_price_token', 'fixed_price_liquid_token'], [('minting', 'src/contract/token.js, nft.js: mint_to; fixed_price_token.js, fixed_price_liquid_token.js: buy, sell, withdraw'), ('series', 'src/contract/template.js: add; nft.js: init_n')])
cprop('J04', 'Plot NFT, virtual plot and smart wallet obey their owner and their locks',
 'A plot NFT sends rewards and claims to the pool target while it is locked and to the owner (or the named farmer) otherwise; only the owner locks, unlocks (after the delay), transfers it or changes the server. A virtual plot pays withdrawals to the owner only and burns the fixed part of native coins. A smart wallet pays only on the owner\'s order or by an active plan that is due, one interval at a time.',
 'all sequences of calls by all users at all heights', 'a claim by the wrong party shows only in one lock state at one height.',
 ['plot_nft', 'virtual_plot', 'smart_wallet'], [('locks', 'src/contract/plot_nft.js: is_locked, lock, unlock, claim_all, mmx_reward_target'), ('withdrawals', 'src/contract/virtual_plot.js: withdraw; smart_wallet.js: transfer, add_plan, cancel_plan, plan_payment')])
cprop('J05', 'Escrow, relay, time lock and transfer release funds only to whom they should',
 'Escrowed funds go to the target or back to the source, and only on the agent\'s order; a relay or a pending transfer pays only its owner, target or source. A time lock pays only its owner, not before the unlock height, which can only be raised. A relay changes owner only when the named successor completes the transfer.',
 'all sequences of calls by all users at all heights', 'a release to the wrong party shows only for that caller or height.',
 ['escrow', 'relay', 'time_lock', 'transfer'], [('release', 'src/contract/escrow.js: unlock, cancel; relay.js: claim_all, complete; time_lock.js: withdraw, set_unlock_height; transfer.js: receive, cancel')])
cprop('J06', 'Game contracts: the pot goes to the best hand, tokens trade at the curve price',
 'The poker table accepts each move only in its phase, from an active player, before the deadline and against the commitment made earlier; shown hands use five different cards, are ranked by the rules, and the pot is split evenly among the best, each paid once; if nobody is left, bets are returned. The horse race contract buys and sells at the price given by its balance, never more than a wallet holds.',
 'all sequences of moves by all players, with all seeds, hands, amounts and timeouts', 'an accepted move out of turn or a wrong winner shows only for one course of a game.',
 ['poker', 'crypto_horse_race'], [('phases', 'src/contract/poker.js: join, reveal, bet, check, fold, show, claim, leave, check_start, check_reveal, check_action, check_finish'), ('ranking', 'src/contract/poker.js: get_rank, check_win, get_card, compute'), ('curve', 'src/contract/crypto_horse_race.js: calc_price, buy_horse, sell_horse, transfer')])
prop('J07', 'Contract library: sort, reverse, compare and equals mean what they say',
 'Comparing two values orders arrays element by element, after their sizes, and everything else by the language operators; two values are equal in depth exactly if they are equal or are arrays of the same size whose elements are. Sorting puts any array in ascending order with the same elements, and reversing gives a new array with the elements in opposite order.',
 'inputs', 'all arrays and values', 'A wrong comparison shows only for particular nesting, sizes or orders; games and other contracts rely on it for who wins.',
 ['src/vm/std/sort.js', 'src/vm/std/reverse.js', 'src/vm/std/compare.js', 'src/vm/std/equals.js'], [('library', 'src/vm/std/*.js')], note=JN)
