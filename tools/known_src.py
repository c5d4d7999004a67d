FIXED = [
 ("C01", "comparisons treat a negative zero as zero", "a zero carrying the negative flag (such as 0 * -1) compared less than and not equal to 0"),
 ("C03", "rounding a negative decimal up to another scale", "to_scale_up and to_scaled_amount_up of a negative decimal returned a positive one"),
 ("C03", "that does not fit into an i32 aborts", "Into<i32> of 4294967297 returned 1"),
 ("C04", "parsing a decimal keeps every digit", "\"1.2345e2\" parsed as 123.00, \"1e-257\" as 0.1, and \"1x\" panicked"),
 ("C05", "integer powers of negative decimals", "(-2)^2 was -4, (-2)^0 was -1, and 10^20 at scale 6 overflowed in a squaring that was not needed"),
 ("C05", "square root of a negative decimal is refused", "sqrt(-4) returned -2"),
 ("C05", "exponents 0.2 and 1.2 are not taken", "at scale 1, x^0.2 returned x^0.25 and x^1.2 returned x^1.25"),
 ("C06", "natural logarithm is accurate for small values", "ln(0.001) was off by up to 1%, ln of values below 2^-19 panicked, ln(2^k - 1ulp) was off by ln 2"),
 ("C07", "converting a root-price to a tick is exact", "the root-price of a tick converted back to the tick below for some ticks, and rounding up skipped or missed a tick next to exact tick prices"),
 ("C10", "oracle-adjusted Y change at strength one", "at strength one the adjusted change of Y had the opposite sign of the price move"),
 ("C11", "a swap that ends exactly on an uncrossed tick", "a swap of Y that used up its amount exactly at a bound left the current tick on the far side of it with the liquidity not updated"),
 ("C18", "a position is not opened without liquidity", "a deposit worth no liquidity opened a position and activated ticks that no withdrawal could remove"),
 ("C13", "rounding dust does not block a deposit", "deposit, the last withdrawal or a swap using up the reserves aborted because an amount rounded one unit past what was there"),
 ("C15", "the root-price after an X swap is rounded", "an X swap rounded its end price away from the pool, paying out more Y than the exact curve"),
 ("C15", "the average price guard on X swaps", "an X swap of ordinary size aborted because its average price rounded past the start price"),
 ("C14", "a new position earns fees from its creation on", "a new position was credited with fees earned inside its range before it existed, and later fee collections aborted"),
 ("C17", "oracle adjustment at strength one does not abort", "swaps with strength one aborted when the logarithm's error made the adjusted amount exceed the unadjusted one"),
 ("C19", "with a tick spacing a swap resumes", "with a tick spacing above one the second swap of a history aborted or skipped liquidity, as the current tick was no multiple of the spacing"),
 ("C18", "a pool is not created with a strength or fee rate", "a pool could be created with strengths or fee rates with which every later swap aborts"),
 ("C20", "new position of the float pool earns fees", "in the float pool a new position was credited with fees earned before it existed, and an exact float comparison aborted legitimate requests"),
 ("C20", "converting a root-price to a tick in the float pool", "in the float pool ranges and swap ends next to a tick landed on the tick below or above it"),
 ("C17", "X swap in the float pool without an oracle price", "in the float pool an X swap without an oracle price was adjusted as if the oracle price were zero"),
 ("C17", "oracle adjustment of the float pool does not abort", "in the float pool oracle-adjusted swaps aborted when float noise made the adjustment negative"),
 ("C20", "float noise does not block", "in the float pool deposits, last withdrawals and swaps aborted over the last digit"),
 ("C20", "partial withdrawal from the float pool", "in the float pool withdrawing a fraction of a unit left liquidity residues: ticks and positions that no withdrawal removes"),
 ("C22", "on-chain current tick does not overwrite", "an on-chain deposit or withdrawal whose current tick was also its lower or upper tick lost that tick's update"),
 ("C23", "on-chain deposit is debited the full value", "an on-chain deposit was debited the value of its liquidity rounded down, so vaults did not cover the liquidity"),
 ("C23", "rounding dust does not refuse an on-chain", "an on-chain deposit was refused when the amount used exceeded the amount offered by rounding noise"),
 ("C18", "float pool refuses empty and inverted", "the float pool accepted empty and inverted ranges"),
 ("C21", "prototype prices deposits and withdrawals at the current price", "after a swap that ended between ticks the prototype priced deposits and withdrawals at the tick below the price: a withdrawal could leave a negative reserve"),
 ("C21", "prototype's right limit with a tick spacing", "with a tick spacing above one the second Y swap of a history was refused by the prototype"),
 ("C21", "positions of the prototype do not collect fees", "the prototype credited a new position with fees earned before it existed"),
 ("C21", "prototype refuses empty positions", "the prototype accepted deposits worth nothing and empty or inverted ranges"),
 ("C21", "withdrawals of the prototype come in whole units", "a fractional withdrawal from the prototype left liquidity residues that the float pool does not have"),
 ("C21", "swap of the prototype that ends on its goal tick", "a Y swap of the prototype that ended exactly on a bound left the tick on the far side of it with the liquidity not updated"),
 ("C21", "float noise of the prototype's logarithm", "the prototype placed the root-price of a tick on the tick next to it"),
 ("C21", "float noise does not make the prototype refuse", "the prototype aborted deposits, withdrawals and swaps over the last digit"),
 ("C18", "float pools refuse out-of-range parameters", "the floating-point pool and the prototype were created with a fee rate of one or more, a strength outside 0 to 2, a tick spacing of zero or a negative root price"),
 ("C19", "an X swap may reach the lower end of a range at tick 0", "an X swap that used up a range whose lower bound is tick 0 aborted, in both pools, instead of ending there"),
 ("C18", "pools cannot start at a root price below one", "both pools, asked to start at a root price below one, silently started at one"),
]
OPEN = []
