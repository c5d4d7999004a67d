prop("C01", "Signed decimal addition, subtraction, negation and ordering are exact",
 "For any two decimals of the same scale, addition, subtraction and negation return the exact signed result at that scale, and equality, less/greater (or equal), minimum and maximum agree with numeric order, where a zero equals any other zero however it was produced. Operands of different scales are refused with an error, and a result that does not fit aborts instead of wrapping.",
 ["inputs", "histories"], "every pair of decimals (sign x magnitude x scale), including values that are themselves results of earlier operations",
 "Tests sample a few dozen literal pairs and never feed the result of one operation (a signed zero, a value near the top of the range) into the next.",
 [DEC], [("signed add/sub/neg", DEC), ("Compare impl", DEC)], observe=["Decimal::add/sub/neg/eq/lt/gt/lte/gte/min/max"])
prop("C02", "Decimal multiplication and division round exactly in the stated direction",
 "Multiplying or dividing decimals gives the exact quotient or product truncated towards zero at the result scale, the rounding-up variants give the smallest representable magnitude not below the exact one, and the sign is the product of the operand signs. Division by zero and results or intermediates that do not fit abort; they never wrap or return a wrong number.",
 ["inputs", "histories"], "every pair of decimals with independent signs, magnitudes and scales, and every requested result scale",
 "Tests check a handful of literal products and quotients; remainders, exact multiples, mixed scales and the ends of the 128-bit range are not covered.",
 [DEC], [("Mul/MulUp/Div/DivUp/DivScale impls", DEC)], observe=["Decimal::mul/mul_up/div/div_up/div_to_scale"])
prop("C03", "Rescaling and integer conversion never lose value, sign or direction silently",
 "Changing the scale of a decimal keeps its sign and is exact when the scale grows, truncates towards zero when it shrinks, and the rounding-up form gives the smallest magnitude not below the exact one. Conversion to an integer or scaled token amount returns exactly the floor (or ceiling) of the magnitude as documented, or aborts when it does not fit the target type, and integer and sign queries agree with the numeric value.",
 ["inputs"], "every decimal (sign, magnitude, scale) and every target scale or integer type",
 "Tests cover a few positive values and scales; negatives under rounding-up conversion and values past the target type are not covered.",
 [DEC], [("to_scale/to_scale_up/abs/abs_up/to_scaled_amount*/Into impls", DEC)], observe=["Decimal::to_scale", "Decimal::to_scale_up", "Decimal::abs", "Into<i32|u64|u128|f64>"])
prop("C04", "Decimal text round-trips and malformed text is refused",
 "Printing any decimal and parsing it back yields the same value, scale and sign (that of a zero is immaterial), and parsing a well-formed number (optional minus sign, digits with optional fraction, optional exponent) yields exactly that number. Text that is not a well-formed decimal number, or that does not fit, is refused with an error and never yields a number.",
 ["inputs"], "every decimal value and every string over the number alphabet up to a length bound",
 "Tests parse and print a short list of literals; the space of strings (exponents, misplaced signs, empty parts) is not sampled.",
 [DEC], [("from_str_radix / FromStr", DEC), ("Display", DEC)], observe=["str::parse::<Decimal>", "Decimal::to_string"])
prop("C05", "Square roots and powers are accurate and sign-correct",
 "The square root of a non-negative decimal is within one unit in the last place of the exact root and a negative input is refused; integer powers equal repeated truncated multiplication within accumulated rounding, with the sign given by the parity of the exponent and anything to the power zero equal to one. Supported fractional and negative exponents agree with the exact power within rounding, unsupported ones abort, and a power that fits is computed without a spurious overflow.",
 ["inputs"], "every base (sign, magnitude, scale) and every supported exponent",
 "Tests evaluate a list of literal bases and exponents with positive bases only.",
 [DEC], [("Sqrt impl", DEC), ("Pow<u128>/Pow<Decimal> impls", DEC)], observe=["Decimal::sqrt", "Decimal::pow"])
prop("C06", "The natural logarithm is accurate over its whole domain",
 "The natural logarithm of any positive decimal at the compute precision is within a fixed small absolute error of the exact logarithm, and so is monotone and additive up to that error, on both sides of one and next to powers of two. Non-positive inputs are refused; no positive input gives a silently wrong value.",
 ["inputs"], "every positive decimal at compute scale, with every row and column of the lookup table exercised and every power of two approached from both sides",
 "Tests compare a few literal arguments; most of the 108 table entries and the neighbourhoods of powers of two are never hit.",
 [DEC], [("Ln impl, log_table, log_table_value, bit_length", DEC)], observe=["Decimal::ln", "Decimal::bit_length"])
prop("C07", "Tick and root price convert consistently and monotonically",
 "The root price of a tick is strictly increasing in the tick and equals the tick base to the half power of the tick within rounding; converting a root price back yields the greatest tick whose root price does not exceed it (or, rounding up, the least tick whose root price is not below it). Rounding to the tick spacing returns the nearest multiple below (or above), and a search from any valid starting tick gives the same answer. This holds in the fixed-point and in the floating-point pool.",
 ["inputs"], "every tick of the supported range, every root price at, just below and just above a tick, every spacing, both rounding directions, every starting tick",
 "Tests convert a handful of prices in the middle of ticks; the boundary prices, where the two conversions use different roundings, are not sampled.",
 [MATH, FMATH], [("tick_to_rp, rp_to_tick_loop, rp_to_possible_tk, tk_to_possible_tk", MATH), ("rp_to_tick, tk_to_possible_tk", FMATH)], observe=["PoolMath::tick_to_rp", "PoolMath::rp_to_tick_loop", "PoolMath::rp_to_possible_tk", "Pool::deposit"])
prop("C08", "The tick bitmap behaves as a set of ticks with ordered neighbour search",
 "After any sequence of activations and deactivations, exactly the activated and not since deactivated ticks are reported active, and no operation on one tick affects another. The neighbour search returns the nearest active tick strictly below (or strictly above) a given tick, or nothing when there is none.",
 ["histories", "inputs"], "every sequence of activate/unset/query operations and every query position in both directions over the whole map",
 "The unit test activates three ticks and asks two membership questions; the neighbour search is commented out of it.",
 [BM], [("activate_tick, unset_tick, tick_is_active, get_next_tick, byte_get_next_tick", BM)], state=[("tick_map", "one bit per tick", BM)], observe=["PoolTickBitmap"])
prop("C09", "Liquidity and token-amount formulas agree with the exact curve",
 "For any price and range, the liquidity obtained from token amounts, the amounts required for a liquidity, and the range bounds recovered from them equal the exact concentrated-liquidity formulas within rounding, with only token X needed when the price is at or below the range, only Y at or above it, and both inside. Computing liquidity from amounts and amounts from that liquidity never requires more than was given beyond rounding dust. This holds for the fixed-point and the floating-point formulas; with fixed-point numbers a liquidity request over an empty or inverted range and a zero denominator abort.",
 ["inputs"], "every combination of amounts, price and ordered range bounds, including price on, below and above each bound",
 "Tests compare a few literal inputs with Python results; boundary prices and inverse relations are not covered.",
 [MATH, FMATH], [("liq_x_only, liq_y_only, liq_from_x_y_rp_rng, x_from_l_rp_rng, y_from_l_rp_rng, rpa_*/rpb_* and *_tick_rng", MATH)], observe=["PoolMath::liq_*", "PoolMath::x_from_*", "PoolMath::y_from_*", "PoolMath::rpa_from_*", "PoolMath::rpb_from_*"])
prop("C10", "Swap-step formulas agree with the exact curve, with and without adjustment",
 "The change of either reserve over a price move, the price reached by a reserve change, and the oracle-adjusted reserve changes for every supported adjustment strength equal the exact integrals of the pricing curve within rounding. They have the sign of the move, vanish for no move, are inverse to each other within rounding, and an adjusted amount paid out while the price stays on the far side of the oracle is never larger than the unadjusted one beyond rounding. This holds for the fixed-point and the floating-point formulas.",
 ["inputs"], "every combination of liquidity, old price, new price, oracle price and supported adjustment strength",
 "Tests compare a few literal moves; the strengths other than one or two values and both directions are not crossed.",
 [MATH, FMATH], [("dx_from_l_drp, dy_from_l_drp, dx_from_l_drp_hmm, dy_from_l_drp_hmm, rp_new_from_l_dx, rp_new_from_l_dy", MATH)], observe=["PoolMath::dx_*", "PoolMath::dy_*", "PoolMath::rp_new_*"])
prop("C11", "In-range liquidity and active ticks always mirror the open positions",
 "After every deposit, withdrawal or swap, the pool's in-range liquidity equals the sum of the liquidity of the open positions whose range contains the current tick, and the active ticks are exactly the bounds of open positions. The current tick is consistent with the current price, so liquidity joins when the price enters a range and leaves when it exits, in both directions and across gaps.",
 ["histories"], "every sequence of deposits, withdrawals and swaps (amounts ending inside a range, exactly on a bound, one unit off it, or past all liquidity), every range layout and tick spacing",
 "Tests run short scripted scenarios with prices in the middle of ranges; stops exactly at bounds, re-crossings and gaps in both directions are not combined.",
 [POOL, COMP], [("cross_tick, update_tick, try_get_in_range, swap_within_tick_from_x/y", POOL)], state=[("global liquidity / active ticks / positions", "in-range sum and range bounds", POOL)], observe=["Pool::glbl_liq", "Pool::glbl_tick", "Pool::glbl_rp", "Pool::tick_keys_cloned", "Pool::position_count"])
prop("C12", "Pool balances change exactly by the amounts traded and deposited",
 "Each swap raises the input token's reserve plus fee pot by exactly the reported input and lowers the output token's reserve by exactly the reported output plus the reported adjustment, which is added to that token's adjustment pot; fee equals the configured rate on the filled input. Deposits never take more than provided, deposits and withdrawals move reserves and fee pots by exactly the position's amounts and earned fees, nothing else changes, and no balance is ever negative.",
 ["histories"], "every sequence of deposits, withdrawals and swaps in both directions with any fee rate and adjustment strength",
 "Tests assert balances at the end of a few scripted scenarios.",
 [POOL, COMP], [("execute_swap_from_x/y, deposit, withdraw", POOL)], state=[("x/y, x_fee/y_fee, x_adj/y_adj", "reserves and fee pots", POOL)], observe=["Pool::x_info", "Pool::y_info", "SwapOutput"])
prop("C13", "The pool stays solvent: every position can exit in full in any order",
 "After any history, all liquidity providers can withdraw all their liquidity and earned fees in any order without the pool refusing, and the reserves left over are only rounding dust in the pool's favour. A provider who deposits and withdraws with no trade in between never receives more than was put in.",
 ["histories"], "every sequence of deposits, swaps and withdrawals followed by every order of full exits",
 "No test drains a pool completely after trading; the last exit is where rounding in the wrong direction shows.",
 [POOL], [("withdraw, ADJ_WITHDRAWAL rounding, fee accounting", POOL)], observe=["Pool::withdraw", "Pool::x_info", "Pool::y_info"])
prop("C14", "Fees go to in-range liquidity, pro rata, once, and only while present",
 "Swap fees and adjustment fees earned while trading are owed to the positions whose range contains the trading price at that moment, in proportion to their liquidity, and to no one else; liquidity added later, including into an already active range, has no claim on earlier fees. Each provider collects exactly the accrued share, once, on the next touch of the position, and no history makes a legitimate fee collection, deposit or withdrawal fail.",
 ["histories"], "every sequence of deposits, fee-bearing swaps and withdrawals by several providers with overlapping, nested, adjacent and disjoint ranges",
 "Tests check pool-level fee totals for one or two providers, never the split after mixed entries, exits and crossings.",
 [POOL, COMP], [("fee growth global/outside/inside, _set_position", POOL)], state=[("fee growth per unit of liquidity", "global, per tick outside, per position snapshot", COMP)], observe=["Pool::x_info", "Pool::y_info"])
prop("C15", "A swap fills along the curve and stops only when filled or out of liquidity",
 "A swap moves the price only in the direction of the trade, is filled in full whenever liquidity remains in that direction and otherwise stops at the last liquidity, never takes more than offered, and its output equals the sum of the exact curve amounts over the ranges it traverses, within rounding. The reported average price is the ratio of the reported amounts and lies between start and end price (net of fees and adjustments), and the reported end price is the pool's price.",
 ["histories", "inputs"], "every reachable pool state, every input amount, both directions, with gaps and overlapping ranges",
 "Tests check a few fills against fixed numbers.",
 [POOL], [("execute_swap_from_x/y, swap_within_tick_from_x/y", POOL)], observe=["SwapOutput", "Pool::glbl_rp"])
prop("C16", "No trader gains by splitting a swap or by a round trip",
 "Splitting a swap into consecutive smaller swaps never pays out more in total than the single swap beyond rounding dust, nor leaves the pool at a materially different price when no fees are charged. Swapping one way and then back never returns more than was put in.",
 ["histories", "inputs"], "every reachable pool state and every split of every amount, both directions, with and without fees and oracle adjustment",
 "One test splits one amount three ways.",
 [POOL, MATH], [("rounding direction in swap_within_tick_from_x/y", POOL)], observe=["SwapOutput", "Pool::x_info", "Pool::y_info"])
prop("C17", "The oracle adjustment only ever retains value, and only on converging trades",
 "A trade that moves the price away from the oracle, or a pool with adjustment strength zero or no oracle price, behaves exactly like the unadjusted pool. A trade towards the oracle pays out no more than the unadjusted pool, with the difference collected as adjustment fee, adjustment applying only up to the oracle price; price path and input consumed are unaffected by the adjustment.",
 ["inputs", "histories"], "every reachable pool state, oracle price (none, below, at, inside, beyond the traversed prices), supported adjustment strength, amount and direction",
 "Tests check a few oracle positions for one pool shape.",
 [POOL, MATH], [("hmm branches of swap_within_tick_from_x/y", POOL)], observe=["SwapOutput::send_hmm_adj", "Pool::x_info", "Pool::y_info"])
prop("C18", "Invalid pool requests are refused and zero-effect requests change nothing",
 "Requests that cannot be honoured - non-positive swap amounts, negative deposits or withdrawals, empty or inverted ranges, withdrawing more than the position holds or from a position that does not exist or belongs to another, out-of-range pool parameters - are refused; a pool that is created starts at the greatest allowed tick not above its start price. Withdrawing zero from a position with no fees due leaves every balance and the liquidity unchanged, and swapping in a pool with no liquidity exchanges nothing, and a deposit worth no liquidity opens no position.",
 ["histories", "inputs"], "every reachable pool state crossed with every malformed request",
 "No test submits an invalid request to the pool.",
 [POOL, COMP], [("argument asserts in new/deposit/withdraw/execute_swap", POOL)], observe=["Pool::new", "Pool::deposit", "Pool::withdraw", "Pool::execute_swap_from_x", "Pool::execute_swap_from_y"])
prop("C19", "The pool behaves the same at every price level and tick spacing",
 "Tick spacing only restricts which ticks ranges may use: with any spacing, at any supported price level down to that of tick zero, where liquidity ends, deposits land on the rounded range, swaps in either direction after any earlier swap are executed normally, and price, liquidity and balances follow the same curve as a pool with spacing one and the same ranges.",
 ["histories", "configurations"], "every spacing, price level and sequence of deposits and swaps",
 "All tests use spacing one at two or three price levels.",
 [POOL, MATH], [("tick_to_possible_tick, get_left/right_limit_of_swap_within, rp_to_tick_loop", POOL)], observe=["Pool::execute_swap_from_x", "Pool::execute_swap_from_y", "Pool::glbl_tick"])
prop("C20", "The floating-point pool keeps the same accounting guarantees",
 "In the floating-point pool, after any history, in-range liquidity equals the sum of covering positions, active ticks are the bounds of open positions, balances change exactly by the reported amounts within floating error, fees are shared pro rata by in-range liquidity only, and every position can exit with at most floating dust left over. Swaps move the price in the trade's direction and fill unless liquidity runs out.",
 ["histories"], "every sequence of deposits, withdrawals and swaps in both directions",
 "Tests run the same few scripted scenarios as for the fixed-point pool.",
 [FPOOL, FMATH, FCOMP], [("Pool (float)", FPOOL)], observe=["cl_pool_float::Pool"])
prop("C21", "Fixed-point, floating-point and reference prototypes agree",
 "Driven by the same history of deposits, withdrawals and swaps, the fixed-point pool, the floating-point pool and the Python reference prototype end with the same liquidity, price, reserves and fee pots report the same swap amounts, and refuse the same requests, within the numeric precision of each (the floating-point pools keep whole units of liquidity), and the prototype's formulas and tick conversions are the exact ones within floating error, below a price of one (negative ticks) as well as above.",
 ["histories"], "every common history of operations within bounds",
 "The test suites compare each implementation with constants copied from one run of the prototype.",
 [POOL, FPOOL, PY, MATH, FMATH], [("three implementations of one algorithm", POOL)], observe=["Pool::x_info", "Pool::y_info", "SwapOutput"])
prop("C22", "On-chain liquidity records always add up",
 "After any sequence of program instructions, accepted or refused, each position's recorded liquidity equals its deposits minus withdrawals, each tick's gross and net liquidity equal the sum over positions using that tick as a bound, and the pool's global liquidity equals the sum over positions containing the current tick. This holds also when the current tick coincides with a position bound, and a refused instruction changes no account.",
 ["histories"], "every sequence of tick/position creation, deposits and withdrawals by several users over overlapping ranges, for each position of the current tick relative to the bounds",
 "The repository has no passing test that executes an instruction handler.",
 [DEP, WIT, POS, TIC, LIB], [("update_position, update_tick, deposit/withdraw handlers", DEP)], state=[("PoolState, TickState, PositionState accounts", "on-chain records", LIB)], observe=["program entrypoint, account data after each instruction"])
prop("C23", "On-chain vaults always cover all liquidity and are never overdrawn",
 "A deposit that the depositor can pay is accepted, debits no more than offered and at least the exact value of the liquidity it credits (rounded up to a whole token), and mints liquidity tokens for that liquidity rounded down to a whole unit; a withdrawal of no more than the position and the liquidity tokens held is accepted, burns those tokens and pays the exact value of the liquidity removed, rounded down; anything more is refused. The emitted events report the amounts moved. So tokens are conserved, vault balances always cover the value of all recorded liquidity, nobody extracts more than they put in at an unchanged price, and every position can exit, in any order.",
 ["histories"], "every sequence of deposits and withdrawals with any amounts (including tiny ones) by several users and every order of exits",
 "The repository has no passing test that executes an instruction handler.",
 [DEP, WIT, DEC, MATH], [("rounding of debits and credits, mint/burn", DEP)], state=[("vault and mint balances", "tokens held and liquidity tokens issued", DEP)], observe=["token account balances after each instruction"])
prop("C24", "Only the right accounts and signers are accepted on chain",
 "An instruction succeeds only with the pool's own vaults, mint, bitmap, ticks and position, the true current tick and the signatures of the user who owns the position and the token accounts; replacing accounts by others (another pool's, another user's, another tick's, a forged copy, an account the user is only a delegate of), giving ticks that do not match, or dropping a required signature makes it fail with no effect; only the payer and the account that receives minted liquidity tokens are free to choose. An accepted instruction takes tokens from nobody who did not sign. Accounts can be initialised only once.",
 ["configurations", "inputs"], "every instruction crossed with every single-account substitution, signature removal and parameter mismatch",
 "The repository has no passing test that executes an instruction handler.",
 [DEP, WIT, POS, TIC, BMI, INI], [("account constraints, seeds and bumps", DEP)], observe=["program entrypoint result and account data"])
prop("C25", "Pool, tick, bitmap and position initialisation record exactly what was asked",
 "Creating a pool, bitmap, tick or position stores the given mints, vaults, authority, ticks and bumps, the root price of the given tick, zero liquidity and zero fees at the standard scales, and vaults owned by the pool; a position requires its lower tick below its upper tick and both ticks initialised. No initialisation alters any other account's record.",
 ["inputs", "histories"], "every tick value in the supported range and every order of initialisation steps",
 "The repository has no passing test that executes an instruction handler.",
 [INI, TIC, BMI, POS], [("initialisation handlers", INI)], observe=["account data after initialisation"])
prop("C26", "On-chain fee growth inside a range is that of the trades inside it",
 "Each time a deposit or withdrawal instruction touches a position, the growth recorded for the position is, for each of the two tokens and each of the two kinds of fee, exactly the growth per unit of liquidity that accrued while the current tick was inside its range (lower bound included, upper bound excluded), whatever way the price took before. It is derived from the pool's global growth and the growth each bound keeps for its other side (flipped at each crossing), wherever the current tick lies relative to the bounds, and touching a position changes neither of these.",
 ["histories", "configurations"], "every path of the price over the bounds with every growth along it, and every range and place of the current tick when a position is touched",
 "The repository has no test of the on-chain fee functions, which are not public.",
 [FEE, DEP, WIT, POS], [("compute_latest_fee, fee_earned_within_range, fee_earned_below_above", FEE)], observe=["program entrypoint, PositionState.last_collected_fee after each instruction"])
