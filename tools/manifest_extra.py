POOL = "Every history inside the stated alphabet and depth is executed on the real code and compared after each step with an independent reference model (double-double curve integrals); histories outside the alphabet are not. Tolerances are derived from the code's resolution (1e-12 of price and amount)."
HISTF = " (and the floating-point pool at one operation less)"
HIST = "stateless explicit-state model checking: all operation histories to a depth on the real fixed-point pool, in lock-step with a reference model"
TECH.update({
 "C07": ("exhaustive enumeration of ticks, of prices on and one unit around every tick, of search starts and of spacings on the real fixed-point and floating-point conversions", "Every tick and neighbour price in the stated sets is converted by the real code and compared with the definition; prices strictly inside a tick are represented by its ends and middle."),
 "C08": ("explicit-state enumeration of all activate/deactivate histories over colliding ticks, with all neighbour queries, against a set", "All histories to the stated depth over the stated tick universe run on the real bitmap; other ticks are not."),
 "C09": ("exhaustive enumeration of the cross product of prices, ranges and amounts on the real fixed-point and floating-point formulas, against exact curve formulas", "Every point of the stated grid is evaluated on the real code; points between are not. Oracle is double-double arithmetic."),
 "C10": ("exhaustive enumeration of the cross product of prices, moves, liquidity, oracles and strengths on the real fixed-point and floating-point formulas, against exact curve integrals", "Every point of the stated grid is evaluated on the real code; points between are not. Oracle is double-double arithmetic."),
 **{k: (HIST + HISTF, POOL) for k in ("C11", "C12", "C14", "C15")},
 "C13": (HIST + HISTF + ", and all exit orders from every reached state", POOL),
 "C16": (HIST + HISTF + ", and every offered swap split and reversed from every reached state", POOL),
})

TECH.update({
 "C17": (HIST + "; lock-step twin pools with and without adjustment (also the floating-point pool)", POOL),
 "C18": ("stateless explicit-state model checking: every malformed and every empty request from every state reached by all histories to a depth, and all pool parameters of a grid", POOL),
 "C19": (HIST + "; at several price levels, in lock-step with the same pool at spacing one (also the floating-point pool)", POOL),
 "C20": ("stateless explicit-state model checking: all operation histories to a depth on the real floating-point pool, in lock-step with a reference model, with all exit orders", POOL.replace("resolution (1e-12 of price and amount)", "conservative 1e-12 adjustments and double rounding")),
})

CHAIN = "The real program entrypoint is executed on a small Solana runtime (svm.rs: privileges, ownership rules, rollback, system program) with the real token program; every history or configuration within the stated alphabet and depth is run, those outside are not. Compute limits and concurrency of the cluster are not modelled."
TECH.update({
 "C22": ("stateless explicit-state model checking: all histories of deposits and withdrawals to a depth through the real program entrypoint, every on-chain record compared after each step with a reference ledger", CHAIN),
 "C23": ("stateless explicit-state model checking: all histories of deposits and withdrawals to a depth through the real program entrypoint with the real token program, with over-large requests and all exit orders from every reached state", CHAIN),
 "C24": ("exhaustive enumeration of account, signature and argument configurations of every instruction (all single and pairwise substitutions, all mixtures of two calls) through the real program entrypoint", CHAIN),
 "C26": ("explicit-state model checking: all price paths to a depth of a model of the travelling pool, each reached state laid into the real accounts and every touch of every range executed through the real program entrypoint", CHAIN + " There is no swap instruction on chain yet, so the growth figures are written into the accounts by the check, as a swap keeping the conventions of the off-chain pool would."),
 "C25": ("exhaustive enumeration of ticks, pairs of bounds, orders of initialisation steps and prefunded accounts through the real program entrypoint", CHAIN),
})

TECH.update({
 "C21": ("stateless explicit-state model checking: all operation histories to a depth on the fixed-point pool, the floating-point pool and the Python prototype in lock-step, and on the prototype against a reference model, and of the prototype's formulas over a grid against exact ones", "Every history inside the stated alphabet and depth is executed on the three real implementations and their states and outputs compared after each step, within tolerances derived from the resolution of the fixed-point root prices; histories outside are not."),
})
