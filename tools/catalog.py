"""Source of properties.jsonl and of the per-check texts of MANIFEST.json (run tools/gen.py after editing)."""
P = []


def p(id, title, statement, over, qtext, why, files, mech, note, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, technique=technique))


MATH, RATES = 'common/math/src/math.rs', 'common/rates/src/rates.rs'
LIQ, LUT, LCA, LLIB, LVW = ('liquidity_layer/src/liquidity.rs', 'liquidity_layer/src/utils.rs', 'liquidity_layer/src/cache/mod.rs',
                            'liquidity_layer/src/lib.rs', 'liquidity_layer/src/view.rs')
DEC = 'every amount, index, parameter and asset precision; every elapsed time; every state satisfying the storage invariant'

p('M01', 'Exact half-up fixed-point arithmetic',
  'Multiplying, dividing or re-scaling non-negative fixed-point numbers gives, at the requested precision, the exact mathematical result of the '
  'operands truncated to that precision (re-scaling: of the value itself), rounded half up (increasing the precision is exact). '
  'The only failure is division by a value that is zero at that precision.',
  ['inputs'], 'all magnitudes and all precisions from 0 to 27', 'tests sample a few dozen operands at the common precisions; off-by-one rounding errors show only on particular residues',
  [MATH], [('half-up multiply / divide / rescale', MATH)], 'contract of each function discharged for all operands and precisions')
p('M02', 'Signed arithmetic rounds half away from zero',
  'Signed fixed-point multiplication and division give, for every combination of signs, the exact result of the operands truncated to the requested '
  'precision, rounded half away from zero; only a zero divisor makes them fail.',
  ['inputs'], 'all signs, magnitudes and precisions from 0 to 27', 'tests use a handful of signed pairs; a sign slip in one quadrant or on odd divisors passes them',
  [MATH], [('signed half-up multiply / divide', MATH)], 'per sign combination, all magnitudes')
p('R01', 'Borrow rate follows the capped three-segment curve',
  'The per-millisecond borrow rate is the configured three-segment curve of utilization (base plus the slope shares up to the mid, the optimal and full utilization, with floor division), '
  'capped at the configured maximum and divided by the milliseconds of a year, rounded half up. It never decreases as utilization grows and never exceeds the maximum rate; '
  'utilization is borrowed value over supplied value, zero for an empty pool.',
  ['inputs', 'configurations'], 'every utilization (including above 100%) and every valid parameter set',
  'no stable test computes a rate; the breakpoints and the cap are measure-zero inputs', [RATES, LVW],
  [('three-segment curve', RATES + ': calculate_borrow_rate'), ('views', LVW)], 'contract of the rate function, monotonicity and cap as lemmas over that contract')
p('R02', 'Compound growth factor is the 5-term series and at least one',
  'The growth factor for a rate and an elapsed time is exactly 1 when no time has passed and otherwise 1 + x + x^2/2 + x^3/6 + x^4/24 + x^5/120 with x = rate times time, each product and quotient rounded half up. '
  'It is therefore never below 1 + x: debts never shrink by the passage of time.',
  ['inputs'], 'every rate and every elapsed time', 'a dropped or mis-scaled high-order term is invisible at the small rates and times tests use', [RATES],
  [('Taylor series', RATES + ': calculate_compounded_interest')], 'contract of the growth function for all rates and times')
p('R03', 'Accrued interest is split exactly and indexes never fall',
  'Accruing interest multiplies the borrow index by the growth factor; the interest on the outstanding debt is divided between the treasury (reserve factor, rounded half up, credited as new supply shares) and the suppliers (the whole remainder, by raising the supply index). '
  'No operation lowers the borrow index, and only bad-debt socialisation lowers the supply index.',
  ['inputs', 'histories'], DEC, 'interest tests compare a few hand-computed values with tolerances; the split must be exact in every state', [LUT, RATES, LIQ],
  [('accrual', LUT + ': global_sync'), ('interest split', RATES)], 'functional postcondition of accrual and index monotonicity at every pool entry point')
p('R04', 'Simulated indexes equal the committed ones',
  'For any pool state and any time, the indexes that solvency checks compute without touching the pool are exactly the indexes the pool itself would commit if it accrued at that moment.',
  ['inputs', 'histories'], DEC, 'two independent implementations of accrual must agree everywhere; tests compare them at no point directly', [RATES, LUT, 'controller/src/oracle/mod.rs'],
  [('simulation', RATES + ': simulate_update_indexes'), ('commit', LUT + ': global_sync')], 'both implementations meet one specification')
p('R05', 'Pool views report the true state',
  'The pool\'s read-only views report exactly: utilization, reserves (its token balance), borrow rate, deposit rate (utilization times borrow rate times one minus the reserve factor, zero when idle), treasury, supplied and borrowed values (shares times index, rounded half up to asset decimals) and the time since the last accrual. '
  'Up to full utilization the deposit rate never exceeds the borrow rate.',
  ['inputs', 'histories'], DEC, 'views are exercised at one or two states with loose bounds', [LVW, RATES], [('views', LVW)], 'functional postcondition of every view')
p('P01', 'Every pool operation accrues interest first, exactly once',
  'Every state-changing pool operation first brings both indexes, the treasury and the accrual time up to the current block using the totals and parameters in force before the operation, exactly once, '
  'and then applies only its own change; if no time has passed accrual changes nothing. A flash loan has committed this state before control leaves the pool.',
  ['histories', 'inputs'], DEC, 'an operation that skips, repeats or reorders accrual differs only when time has passed and the operation changes the totals', [LIQ, LUT, LLIB, LCA],
  [('accrual call in each operation', LIQ), ('cache load and commit', LCA)], 'postcondition over all six stored totals for each of the eleven mutating entry points')
p('P02', 'Supply and withdraw account exactly',
  'Supplying credits the position and the pool total with amount divided by the current supply index (half up). Withdrawing at least the position\'s value closes it and pays exactly that value; a smaller request pays the request and burns the matching shares, never more than the position holds; '
  'in a liquidation the protocol fee, never more than the withdrawn amount, is kept as treasury and the rest paid to the recipient; nothing else in the pool or the position changes.',
  ['inputs', 'histories'], DEC, 'depends on rounding at arbitrary indexes and on the full/partial boundary', [LIQ, LUT, LCA], [('supply', LIQ + ': supply'), ('withdraw', LIQ + ': withdraw')],
  'functional postcondition of both entry points')
p('P03', 'Borrow and repay account exactly',
  'Borrowing debits the position and the pool total with amount divided by the current borrow index (half up) and pays exactly the amount to the borrower. Repaying at least the current debt clears the position to zero and returns the exact excess to the payer; a smaller payment removes the matching shares, never more than the position owes; '
  'nothing else in the pool or the position changes.',
  ['inputs', 'histories'], DEC, 'depends on rounding at arbitrary indexes and on the exact/over-payment boundary', [LIQ, LUT, LCA], [('borrow', LIQ + ': borrow'), ('repay', LIQ + ': repay')],
  'functional postcondition of both entry points')
p('P04', 'The pool pays out only what an operation owes',
  'A pool operation sends at most one transfer: the withdrawn, borrowed, lent or claimed amount or the over-payment, in the pool\'s asset, to the designated recipient, and never more than its reserves; every other operation sends nothing.',
  ['inputs', 'histories'], 'every entry point, every argument and state', 'needs all entry points in all states, including zero amounts and fee paths', [LIQ, LUT], [('payment', LUT + ': send_asset')],
  'frame condition over the transfer trace of all entry points')
p('P05', 'Flash loans are repaid in full, with fee, in the same transaction',
  'A flash loan sends exactly the requested amount, within the reserves, of the pool\'s asset to the requested contract, and completes only if that one call returns a single payment in the same asset of at least the loan plus the fee rate (rounded half up), otherwise everything reverts. '
  'Everything returned above the loan becomes treasury, and the pool\'s books continue from whatever the called contract left behind.',
  ['inputs', 'histories', 'fault_sequences'], 'every amount, fee, callee behaviour (including re-entry that changes the pool) and repayment', 'the callee is arbitrary code; tests use two cooperative mocks', [LIQ, LUT],
  [('flash loan', LIQ + ': flash_loan'), ('repayment check', LUT)], 'the callee is a havoc of pool state, balance and returned payments')
p('P06', 'Strategy borrowing withholds exactly its fee',
  'Borrowing for a strategy records the full amount as debt (amount over borrow index, half up), credits the fee to the treasury, and sends exactly amount minus fee to the calling protocol; the fee may not exceed the amount nor the amount the reserves.',
  ['inputs', 'histories'], DEC, 'fee and rounding at arbitrary indexes', [LIQ], [('strategy borrow', LIQ + ': create_strategy')], 'functional postcondition')
p('P07', 'Bad debt is socialised once, exactly, and never gets stuck',
  'Writing off a debt position removes its shares from the total debt and lowers the supply index by the fraction debt value / supplied value (capped at the whole, half up, never to zero), and leaves supply shares unchanged; seizing a collateral position moves its shares to the treasury unchanged. '
  'The seized position ends at zero, nothing leaves the pool, and the operation fails only for a wrong caller, asset or position type or a debt above the pool\'s total.',
  ['inputs', 'histories'], DEC, 'bad debt tests cover a few magnitudes; total wipe-outs and post-wipe-out states are not reached', [LIQ, LUT], [('socialisation', LUT + ': apply_bad_debt_to_supply_index'), ('seizure', LIQ + ': seize_position')],
  'functional postcondition and exact failure condition')
p('P08', 'Treasury claims and rewards are exact',
  'Claiming revenue pays the owner the smaller of the treasury\'s current value and the pool\'s balance and burns the same proportion of treasury shares from both the treasury and the supply total. '
  'Adding rewards raises only the supply index, by payment over supplied value, and only for payments in the pool\'s asset.',
  ['inputs', 'histories'], DEC, 'partial claims under thin reserves and rounding of tiny treasuries are not sampled', [LIQ, LUT], [('claim', LIQ + ': claim_revenue'), ('rewards', LIQ + ': add_reward')], 'functional postcondition')
p('P09', 'Pool parameters are always valid and change only by update',
  'After deployment or a parameter update the stored parameters are exactly those given and satisfy: maximum rate above base rate, mid below optimal utilization, optimal below 100%, reserve factor below 100%; otherwise the call reverts. '
  'The asset and its decimals never change after deployment, no other operation touches any parameter, and deployment starts with unit indexes, empty totals and the current time.',
  ['configurations', 'histories'], 'every parameter set and every operation', 'tests try one violation per bound at most', [LLIB, LIQ], [('validation', LLIB)], 'postcondition of init/updateParams, frame condition elsewhere')
p('P10', 'Only the controller moves a pool, only in its own asset',
  'Every state-changing pool operation succeeds only when called by the pool\'s owner, and every payment and position it accepts is in the pool\'s own asset; anything else reverts.',
  ['inputs', 'histories'], 'every entry point, caller, payment and position', 'each entry point needs its own negative test; most have none', [LIQ, LUT, LLIB], [('owner guard', LIQ), ('asset check', LUT)], 'guard obligations at every entry point')
p('P11', 'Interest accrual can never get stuck',
  'On a deployed pool the owner can always accrue interest: whatever the totals, the indexes (including after bad debt wiped out the supply value), the parameters and the elapsed time, the accrual arithmetic neither divides by zero nor underflows.',
  ['histories', 'inputs'], DEC, 'needs states after a complete loss, which tests do not build', [LUT, LCA, RATES], [('zero guards', RATES), ('utilization', LCA + ': calculate_utilization')], 'every reverting path of the accrual entry point is infeasible')
p('P12', 'Pool totals always equal the sum of their parts',
  'Every pool operation changes the total supply shares by exactly the change of the depositor\'s position plus the change of the treasury shares, and the total debt shares by exactly the change of the borrower\'s position; so totals always equal the sum of all positions and the treasury.',
  ['histories'], 'every sequence of operations (inductive step per operation)', 'a conservation law over unbounded histories', [LIQ, LUT], [('share bookkeeping', LIQ)], 'inductive step discharged for every entry point')

AGS = 'price_aggregator/src/'
AG = [AGS + 'lib.rs', AGS + 'utils.rs', AGS + 'storage.rs']
p('A01', 'Only listed oracles feed prices, unpaused, with fresh timestamps',
  'A price submission, alone or as any element of a batch, takes effect only if the aggregator is not paused, the caller is on the oracle list, and its timestamp is neither in the future nor more than 30 seconds old; otherwise the whole call reverts. Every element of a batch is treated like a single submission, and submitting never changes who is on the list.',
  ['inputs', 'histories'], 'every caller, pair, timestamp, batch and stored state', 'tests use one oracle set and exact timestamps', AG, [('submit', AGS + 'lib.rs'), ('guards', AGS + 'utils.rs')],
  'guard obligations on both submission entry points, for an arbitrary batch element')
p('A02', 'A price round counts each oracle once and closes exactly at the quorum',
  'Within a round each oracle\'s first submission for a pair is recorded and repeats are ignored. When more than 1800 seconds have passed since the first submission the collected ones are dropped and the new submission starts a fresh round; up to then nothing is dropped. '
  'As soon as the number of recorded submissions reaches the quorum, a round is published with the next round number and the current time and the collection is emptied; until then the published price is unchanged. Other pairs are never affected.',
  ['histories', 'inputs'], 'every stored round state, oracle set, quorum and time', 'needs sequences of submissions by several oracles crossing the timeout and the quorum', AG, [('round logic', AGS + 'utils.rs: submit_unchecked, create_new_round')],
  'functional postcondition over the stored collection, for an arbitrary other oracle and an arbitrary other pair')
p('A03', 'The published price is the median of the round\'s submissions',
  'The price published by a round is the median of all submissions recorded in that round, the closing one included: the middle value for an odd number, the mean of the two middle values (rounded down) for an even number; no other value takes part.',
  ['inputs', 'histories'], 'every number of submissions up to the maximum and every value', 'tests compute a few medians on fixed lists', AG + [AGS + 'median.rs'], [('median', AGS + 'median.rs: calculate'), ('collection', AGS + 'utils.rs: create_new_round')],
  'functional postcondition relating the stored price to the sorted collection')
p('A04', 'Quorum and oracle list stay well-formed and owner-controlled',
  'Deployment and every change of quorum or removal of oracles end with the requested quorum, which is at least 1, at most 50 and at most the number of listed oracles, or revert. Adding lists exactly the given oracles without resetting the statistics of listed ones; removing removes exactly the given ones. '
  'After deployment only the owner can do any of this; deployment and upgrade leave the aggregator paused.',
  ['configurations', 'histories'], 'every argument and stored state', 'boundary combinations of quorum and list length are not sampled', [AGS + 'admin.rs', AGS + 'utils.rs'], [('administration', AGS + 'admin.rs')],
  'postconditions of the administrative entry points')
p('A05', 'Price views report the last published round and nothing while paused',
  'latestPriceFeed returns exactly the price, time and number of the last published round of the pair, answers whenever one exists and the aggregator is not paused, and fails otherwise; latestRoundData also fails while paused; views change nothing.',
  ['inputs', 'histories'], 'every stored state', 'paused and unset cases are barely tested', [AGS + 'views.rs'], [('views', AGS + 'views.rs')], 'functional postcondition and exact failure condition')

# ------------------------------------------------------------------ controller
CLIB, CSUP, CBOR, CWIT, CREP, CLIQ, CACC, CEMO, CUPD = ('controller/src/lib.rs', 'controller/src/positions/supply.rs', 'controller/src/positions/borrow.rs',
    'controller/src/positions/withdraw.rs', 'controller/src/positions/repay.rs', 'controller/src/positions/liquidation.rs', 'controller/src/positions/account.rs',
    'controller/src/positions/emode.rs', 'controller/src/positions/update.rs')
CVAL, CUTI, CHEL, CORA, CCAC, CSTR, CROU, CCFG, CVIE = ('controller/src/validation.rs', 'controller/src/utils.rs', 'controller/src/helpers/mod.rs', 'controller/src/oracle/mod.rs',
    'controller/src/cache/mod.rs', 'controller/src/strategy.rs', 'controller/src/router.rs', 'controller/src/config.rs', 'controller/src/views.rs')
ANY = 'every account, every list of payments of any length and with repeated tokens, every position set, price, index, configuration and risk category'
NOT = 'no stable test reaches the controller'
ctlnote = 'pools enter through the contracts P01-P12 verify; prices through the resolution contract C19 verifies'

p('C01', 'Nothing moves while paused or inside a flash loan',
  'While the controller is paused, or while one of its flash loans is in progress, every user operation on positions and markets is refused and changes nothing.',
  ['inputs', 'histories'], ANY, NOT + '; a guard missing on one entry point shows only in a re-entrant or paused history', [CLIB, CVAL],
  [('reentrancy_guard / require_not_paused', CVAL), ('entry points', CLIB)], 'obligation at the end of every path of each entry point', ctlnote)
p('C02', 'Only the holder of the account NFT moves value out of an account',
  'Borrowing and withdrawing act on the account whose NFT is the first payment, require the account to be active and the attributes carried by the NFT to be those on record, and give the NFT back to the caller unless the account is closed. '
  'Supplying without an account mints exactly one NFT to the caller and registers the account with the attributes of that NFT; supplying to an existing account and repaying require it to be active. '
  'An account is closed exactly when its last position is gone.',
  ['inputs', 'histories'], ANY, NOT + '; account substitution needs a crafted payment list', [CLIB, CACC, CSUP, CWIT, CUTI],
  [('account payment validation', CSUP + ': validate_supply_payment'), ('account lifecycle', CACC), ('withdraw close-out', CLIB + ': withdraw')], 'postconditions over all payment lists', ctlnote)
p('C03', 'Every borrow leaves debt within LTV-weighted collateral',
  'After each borrow of a batch, the value of all debt of the account - including the debts opened earlier in the same call - is at most the loan-to-value weighted value of its collateral, at the safe prices and the accrued indexes of the transaction.',
  ['inputs', 'histories'], ANY, NOT + '; a stale running total shows only in batches with repeated or interleaved tokens', [CBOR, CHEL, CLIB],
  [('LTV validation', CBOR + ': validate_ltv_collateral'), ('bulk borrow loop', CLIB + ': borrow')], 'loop invariant tying the running list of debts to the stored positions, for any number of payments', ctlnote)
p('C04', 'No withdrawal leaves an account unhealthy',
  'After a withdrawal of any list of tokens, the account either has no debt or its liquidation-threshold weighted collateral is at least its debt (health factor at least one) at the prices and accrued indexes of the transaction; '
  'unsafe prices are accepted only for accounts without debt.',
  ['inputs', 'histories'], ANY, NOT, [CWIT, CLIB, CVAL, CHEL], [('health check', CLIB + ': validate_is_healthy'), ('withdrawal loop', CLIB + ': withdraw')],
  'postcondition over the stored positions after the loop', ctlnote)
p('C05', 'Borrowing follows the rules of the asset and of the account',
  'A token is borrowed only if it is borrowable under the configuration in force (the category of the account overrides the base configuration), the category exists, is not deprecated and lists the token, '
  'isolated accounts borrow only tokens enabled for isolation, and a siloed token is the only debt of its account - also within one batch.',
  ['inputs', 'configurations'], ANY, NOT + '; the combinations of flags are too many to sample', [CBOR, CEMO, CLIB],
  [('borrow asset validation', CBOR + ': validate_borrow_asset'), ('e-mode overrides', CEMO)], 'obligation at every borrow of every batch', ctlnote)
p('C06', 'Supplying follows the rules of the asset and of the account',
  'A token is accepted as collateral only if it is supplyable under the configuration in force, the category exists, is not deprecated and lists the token, isolated collateral is never mixed with other collateral and never used in a category; '
  'the position takes the current loan-to-value, bonus and fee, and a new position the current liquidation threshold while an existing one keeps its own.',
  ['inputs', 'configurations'], ANY, NOT, [CSUP, CEMO], [('deposit processing', CSUP + ': process_deposit'), ('e-mode overrides', CEMO)], 'obligation at every payment of every batch', ctlnote)
p('C07', 'Supply and borrow caps hold after every operation',
  'With a supply cap configured, the total supplied of the token (at the accrued index, including the payment) stays within it after every supply; with a borrow cap, the same holds for the total borrowed after every borrow. Repeated tokens in one batch are counted cumulatively.',
  ['inputs', 'histories'], ANY, NOT + '; the cap binds only in markets near it', [CSUP, CBOR], [('supply cap', CSUP + ': validate_supply_cap'), ('borrow cap', CBOR + ': validate_borrow_cap')],
  'obligation at every payment of every batch', ctlnote)
p('C08', 'Isolated debt is counted in dollars and stays under its ceiling',
  'Every borrow of an isolated account raises the debt counter of its isolated token by the dollar value borrowed and leaves it at or below the ceiling of that token; every repayment lowers it by the dollar value repaid, never below zero (dust under one dollar clears it). No other counter moves.',
  ['inputs', 'histories'], ANY, NOT + '; a drifting counter shows only over long histories', [CBOR, CREP, CUTI], [('isolated debt', CUTI + ': adjust_isolated_debt_usd'), ('ceiling', CBOR)],
  'obligation at every payment of every batch', ctlnote)
p('C09', 'Accounts never exceed the position limits',
  'After a batch of supplies or borrows, the number of collateral (debt) positions of the account is within the configured limit, however many payments the batch has, in whatever order, and with repeated tokens.',
  ['inputs', 'configurations'], ANY, NOT + '; over-counting or under-counting needs repeated tokens at the boundary', [CVAL, CSUP, CBOR], [('bulk limit', CVAL + ': validate_bulk_position_limits')],
  'loop invariant: positions stay within initial count plus new tokens counted so far', ctlnote)
p('C10', 'Every payment reaches its pool once, with the right position',
  'Every token of a supply or repay goes, in the amount received, to the pool of that token with the stored position of the account (or a fresh one) and the resolved price; every requested borrow or withdrawal is asked of the pool of that token, paid to the caller. '
  'The position the pool returns is what is stored (removed when empty) and no other position or counter of any account is written.',
  ['inputs', 'histories'], ANY, NOT, [CLIB, CSUP, CBOR, CWIT, CREP, CUPD], [('pool calls', CUPD), ('storage of positions', CUPD)], 'obligation at every pool call, frame condition at the end of every path', ctlnote)
p('C18', 'Flash loans are locked, same-shard, and on the terms of the asset',
  'A flash loan is started only for an asset that permits it, for an amount above zero, towards a receiver in the same shard and a proper function name; exactly one loan is taken from the pool of the asset, for the requested amount, at the fee rate of the asset, and the initiator is told to the receiver. '
  'While it runs the account operations are locked; afterwards they are released; the controller itself pays nothing and no account changes.',
  ['inputs', 'configurations', 'histories'], 'every caller, receiver, endpoint, amount, configuration and state', NOT, [CLIB, CVAL], [('flash_loan', CLIB), ('lock', CVAL + ': reentrancy_guard')],
  'functional postcondition with an obligation at the external call', 'the pool side (repayment with fee) is P05')
p('C19', 'Prices are resolved by the configured rules and never silently unsafe',
  'EGLD and WEGLD are worth exactly one EGLD. Every other price comes from the configured oracle: the aggregator quote over EGLD/USD (fresh, unpaused, recorded), the 15-minute pool average, both within tolerance (pool price inside the first band, average inside the second), '
  'the staking ratio of derived tokens, or the invariant-based value of LP tokens. Stale rounds, inactive pools and deviations beyond both bands are accepted only when the operation permits unsafe prices.',
  ['inputs', 'configurations'], 'every oracle configuration, every price, reserve, ratio and timestamp, every cache state', 'no stable test resolves a price; anchors and bands are decided by ratios tests do not sample', [CORA, CCAC],
  [('token_price', CORA), ('tolerance anchors', CORA + ': calculate_final_price, safe_lp_price'), ('aggregator feed', CORA + ': aggregator_price_feed'), ('cache', CCAC)],
  'recursive contract of token_price: the body is verified against the rules with the contract assumed for derived, LP and quoted legs', 'external price contracts are unconstrained')

p('C23', 'Protocol revenue reaches the accumulator in full; upkeep calls the right pool',
  'Claiming revenue asks the pool of every listed asset exactly once and forwards the whole amount it pays, and nothing else, to the configured accumulator, calling it only when there is something to forward; index updates touch every listed market once, with its resolved price, and move no funds; '
  'rewards sent by the owner go in full to the pool of their token.',
  ['inputs', 'histories'], 'every list of assets of any length, every revenue and price', NOT, [CROU, CLIB], [('claim_revenue', CROU), ('update_indexes', CLIB), ('add_reward', CROU)],
  'postcondition of an arbitrary element of the list of assets', 'the pool side is P08')

OWN = 'every caller, argument and stored state'
p('C11', 'Threshold updates move only the risk parameters, and never to the brink',
  'Updating accounts to the current risk parameters handles every listed account, each of which must be active; only its collateral position in the named asset is rewritten, keeping amount and owner. The risky variant changes just the liquidation threshold and leaves the account '
  'at a health factor of at least 1.05; the safe variant changes just loan-to-value, bonus and fee. The values are those in force for the category of the account, which must be live. No funds move and no position opens or closes.',
  ['inputs', 'configurations'], 'every list of accounts of any length, every position set, price, index, configuration and category', NOT, [CUPD, CLIB, CEMO], [('threshold propagation', CUPD + ': update_position_threshold'), ('entry point', CLIB + ': update_account_threshold')],
  'postcondition of an arbitrary element of the account list', ctlnote)
p('C12', 'Bad debt is cleaned completely, and only when it is bad debt',
  'Cleaning bad debt works only on an active account whose debt exceeds its collateral and whose collateral is worth at most five dollars, at safe prices; it then hands every debt and every collateral position to its pool exactly once, for writing off and seizure, '
  'lowers the isolated debt counter by the dollar value written off, closes the account, pays nothing out, and leaves every other account untouched.',
  ['inputs', 'histories'], 'every account state, position set, price and index', NOT + '; bad debt needs a price crash after a history of borrowing', [CLIQ, CLIB, CUTI], [('clean_bad_debt', CLIB), ('seizure of positions', CLIQ + ': perform_bad_debt_cleanup')],
  'postcondition over the stored positions, obligation at every pool call', ctlnote)
p('C13', 'Liquidation takes from the payer only what it counts',
  'Only an active account whose health factor is below one can be liquidated. Of every payment, a part counts against the debt of its token - never more than its value at the safe price, never more in total per token than the debt in that token, and over all tokens never more than the amount that closes the position to health. '
  'What is counted is sent to the pool of that debt; every other unit goes back to the liquidator: per token, units repaid plus units refunded equal the units received.',
  ['inputs', 'histories'], ANY, NOT + '; repeated tokens, overpayment across several tokens and dust meet only in multi-payment liquidations', [CLIQ, CREP],
  [('payments counted', CLIQ + ': calculate_repayment_amounts'), ('refund of the excess', CLIQ + ': process_excess_payment'), ('repayment loop', CLIQ + ': process_liquidation')],
  'loop invariants (sums over the payment, refund and repayment lists) for any number of payments', ctlnote)
p('C14', 'Liquidators seize exactly what the counted debt plus bonus pays for',
  'The closing amount is the debt whose repayment brings the account to a health factor of 1.02, else 1.01, else all that its collateral can pay for, with the bonus interpolated between the weighted bonus and 15 %. '
  'Each collateral position of the account pays, once, its share of the counted debt plus bonus - by value, at most all of it - to the liquidator, the protocol fee being a share of the bonus only; nothing else of the account moves.',
  ['inputs', 'histories'], ANY, NOT + '; the rounding and the fallbacks depend on the whole account', [CLIQ, CWIT, CHEL],
  [('closing amount', CHEL + ': estimate_liquidation_amount'), ('seizure', CLIQ + ': calculate_seized_collateral')],
  'contract on the closing amount against an exact specification; obligation at the seizure of an arbitrary position', ctlnote)
p('C15', 'Only the owner changes the configuration, and only what he names',
  'Every administrative operation of the controller (contract addresses, oracles, assets, e-mode categories, limits, pool creation and upgrades, rewards) completes only when the caller is the owner, writes only the configuration entry of the asset or category it names, '
  'and moves no funds; no entry point outside the known user operations touches the configuration for anyone else.',
  ['inputs', 'configurations'], OWN, NOT + '; a missing check or a wrong key shows only to an outsider or on a second asset', [CCFG, CROU, CLIB],
  [('configuration endpoints', CCFG), ('pool administration', CROU)], 'postcondition and frame of every administrative entry point, enumerated from the source')
p('C16', 'Accepted configuration values are within the documented bounds',
  'Contract addresses are non-zero smart contracts; an oracle is set once, with first and last tolerance inside their bounds, the last covering the first, and the stored ratio ranges enclosing the anchor; an asset that has a market keeps its liquidation threshold '
  'above its loan-to-value ratio (unless both are zero), a zero cap means no cap, the e-mode flag survives, and every other value is recorded exactly as given. Deployment records the given addresses and non-zero position limits.',
  ['inputs', 'configurations'], OWN, NOT, [CCFG, CHEL, CLIB], [('configuration endpoints', CCFG), ('tolerances', CHEL + ': validate_and_calculate_tolerances'), ('deployment', CLIB + ': init')],
  'functional postconditions of the configuration entry points')
p('C17', 'A market is created once, from the template, with the recorded parameters',
  'Creating a market requires that the asset has none, has a valid identifier and an oracle, and a liquidation threshold above the loan-to-value ratio; exactly one pool is deployed from the template with the given rates and the decimals of the oracle; the pool is '
  'recorded under the asset, the configuration is recorded as given and the isolated debt counter starts at zero dollars in WAD. Upgrades go to the pool of the asset, from the template, and new rates are passed on unchanged with the resolved price.',
  ['inputs', 'configurations', 'histories'], OWN, NOT + '; swapped arguments or a wrong scale surface only later, in isolated borrowing', [CROU], [('create_liquidity_pool', CROU), ('upgrades', CROU)],
  'functional postconditions of the market entry points, the deployed contract through the contract P09 verifies')
p('C22', 'E-mode categories and memberships stay consistent',
  'An asset lists a category exactly when the category lists the asset, and is flagged for e-mode exactly when it is in some category; adding requires an existing category and market and no prior membership; new categories get a fresh number and start live; '
  'removing a category only deprecates it, keeping its parameters; no operation touches other categories, other memberships or other settings of the asset.',
  ['histories', 'configurations'], OWN, NOT + '; a broken index shows only after a sequence of additions and removals', [CCFG], [('e-mode administration', CCFG)],
  'inductive invariant over the two membership indexes for an arbitrary asset and category')
