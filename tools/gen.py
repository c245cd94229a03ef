#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "programs/token-bonding-curve/src/"
PR, ST, CO, LIB, DFS = S+"processor.rs", S+"state.rs", S+"constraints.rs", S+"lib.rs", S+"dfs_precise_number.rs"
C = lambda n: S+"curve/"+n+".rs"
I = lambda n: S+"instructions/"+n+".rs"
NO_PROC = "every processor-level Rust test is commented out and the TypeScript tests need a validator, so no test executes this path at all; "
P = []
def prop(id, title, statement, over, text, why, files, mech, note, tech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a), note, tech))

HIST = "random operation histories (choice-tape stateful PBT) through the program entry point against an exact big-integer oracle, shrunk on the tape"
CALC = "generated inputs against an exact big-integer reference"
PROG = "generated pool states and requests through the program entry point against an exact reference model"

prop("P01", "A linear bonding curve can always buy back every token it has sold",
 "On a linear-price pool the collateral held always covers the area under the price line for all bonded tokens that are outstanding, up to the documented precision of the 18-decimal arithmetic. So after any history of purchases, sales and donations every holder can sell back and is paid what the line pays.",
 ["histories", "inputs"], "every valid line (slope and starting price as 64-bit fractions), every history of buys, sells and collateral donations by several users, including failed trades, emptied reserves and full exits",
 "Solvency is a statement about whole histories on arbitrary lines; the tests swap a few hand-picked amounts on a few lines, one trade at a time, on the calculator only.",
 [C("linear_price"), PR], [("rounding of collateral up and tokens down", C("linear_price")+" swap_a_to_b / swap_b_to_a"), ("reserve and LP bookkeeping", PR+" process_swap")],
 "Random search over lines and histories; position known to the derived tolerance of 18-decimal arithmetic, roots to 2^-30.", HIST, observe=["token balances of pool and users after each instruction"])

prop("P02", "Buying on the line: tokens received and collateral taken follow the integral",
 "A buyer on a linear-price pool is never charged more collateral than offered and receives the tokens that collateral buys under the line from the pool's current position: never more than the exact area pays for, and less by no more than rounding. If the offer exceeds what the remaining tokens cost, the buyer gets exactly the remaining tokens and pays only for them.",
 ["inputs"], "every valid line, collateral already locked, remaining reserve and offered amount in 64 bits, including offers around the cost of one token and of the whole reserve",
 "The tests compare a table of sample trades with hand-computed numbers and a bounded proptest range; the claim is about every line and amount, where truncation, the choice of quadratic root and the reserve cap interact.",
 [C("linear_price"), DFS], [("quadratic solution for tokens at a collateral level", C("linear_price")+" b_value_with_amt_a_locked_quadratic"), ("cap at the remaining reserve", C("linear_price")+" swap_a_to_b")],
 "Exact area by 1024-bit integer square roots; tolerance derived from the 18-decimal arithmetic.", CALC+", on the calculator and through the entry point")

prop("P03", "Selling on the line: collateral paid back follows the integral",
 "A seller on a linear-price pool gives up no more tokens than offered and is paid the area under the line for them from the pool's current position: never more than the exact area, and less by no more than rounding. Selling more than was ever bought pays out all collateral and takes only the tokens that are outstanding.",
 ["inputs"], "every valid line, locked collateral and offered tokens in 64 bits, including sales of one token, of everything outstanding and of more than that",
 "Sampled table tests and a bounded proptest on the calculator; the boundary where the position reaches zero and the precision of the root are not reached.",
 [C("linear_price"), DFS], [("collateral at a token position", C("linear_price")+" swap_b_to_a"), ("cap at all collateral", C("linear_price")+" swap_b_to_a")],
 "Exact area by 1024-bit integer square roots; tolerance derived from the 18-decimal arithmetic.", CALC+", on the calculator and through the entry point")

prop("P04", "Only meaningful curve parameters and opening balances are accepted",
 "A pool can be created only if its fixed price or offset is positive, or its line has non-zero denominators and a slope of at least the smallest 18-decimal unit; and only if its opening balances fit: both sides non-empty for constant-product and stable pools, token A non-empty for constant-price and offset pools, no collateral and some tokens for linear pools. Every other combination is refused as an invalid curve or supply and nothing is created; any amplifier and any starting price are accepted.",
 ["inputs", "configurations"], "all parameter values including zeros, extremes and overflowing ones, times empty and non-empty opening balances, for every curve",
 "The tests call a few validators with one bad value each; the full acceptance set across parameters and balances is not examined, and not through creation itself.",
 [C("linear_price"), C("constant_price"), C("stable"), C("offset"), C("calculator"), PR], [("parameter validation", "validate in each curve"), ("opening balances", "validate_supply in each curve")],
 "Exact acceptance predicate on generated parameters.", PROG)

prop("P05", "Constant-price trades happen at exactly the stated price",
 "On a constant-price pool a buyer of B pays exactly price times the tokens received, using as much of the offer as buys whole tokens and leaving the rest untouched, and a seller of B receives exactly price times the tokens sold. After fees as configured the reserves and the trader's balances move by exactly these amounts, and a trade the price or the reserves do not allow is refused.",
 ["inputs"], "every price, amount, direction, reserves, fee setting in 64 bits",
 NO_PROC+"calculator tests check samples.", [C("constant_price"), C("base"), PR],
 [("whole-token trade", C("constant_price")+" swap_without_fees"), ("fees around the trade", C("base")+" swap")],
 "Closed form, compared exactly.", CALC+", on the calculator and through the entry point")

prop("P06", "Constant-product trades never lose value and give the best integer price",
 "On a constant-product pool, with or without an offset on one side, a trade never lowers the product of the reserves, pays the trader the most whole tokens the product allows for what is charged, and charges the least that buys them. After fees as configured the reserves and the trader's balances move by exactly these amounts, and a trade that would buy nothing or more than the reserve is refused.",
 ["inputs"], "every pair of reserves, offset, amount, direction and fee setting in 64 bits",
 NO_PROC+"the calculator proptests check that value does not fall but not that the trade is the best one.", [C("constant_product"), C("offset"), C("base"), PR],
 [("ceiling division of the product", C("constant_product")+" swap"), ("offset on the B side", C("offset")+" swap_without_fees")],
 "Exact best-trade reference, plus the product inequality directly.", CALC+", on the calculator and through the entry point")

prop("P07", "Stable-curve trades and deposits keep the amplified invariant",
 "On a stable pool a trade pays out the amount that keeps the amplified invariant, within one unit, never the whole reserve, and never more than one unit beyond what the invariant allows; a trade of nothing, or one that fees use up, buys nothing. LP tokens for one-sided liquidity follow the change of the invariant in proportion.",
 ["inputs"], "every amplifier and reserves and amounts in 62 bits (accuracy from below claimed for reserves within 1000:1)",
 "The tests compare against a Python simulation for a bounded range of pools and tolerate differences; the exact invariant, far imbalance and large reserves are not covered.",
 [C("stable")], [("Newton iteration for the invariant and the new reserve", C("stable")+" compute_d / compute_new_destination_amount")],
 "Exact invariant by bisection in 1024-bit integers; one-sided amounts to three units of the invariant.", CALC+", on the calculator and through the entry point")

prop("P08", "Two-sided deposits and withdrawals move exactly the proportional amounts",
 "Depositing for a number of LP tokens costs exactly that share of the pool on each side rounded up, and redeeming LP tokens pays exactly that share rounded down and never more than the reserve holds; LP tokens are minted or burned in exactly that number. On a constant-price pool the share is half of the pool's total value on each side, and requests that would move nothing on a side that is not empty are refused.",
 ["inputs"], "every curve with liquidity, reserves, LP supply, LP amount, fee setting; also pools whose LP supply has been burned to zero",
 NO_PROC+"calculator tests check some samples of the conversion.", [C("calculator"), C("constant_product"), C("constant_price"), C("offset"), C("stable"), PR],
 [("LP tokens to trading tokens", "pool_tokens_to_trading_tokens in each curve"), ("two-sided requests", PR+" process_deposit_all_token_types, process_withdraw_all_token_types")],
 "Exact amounts, compared exactly, with exact refusal conditions.", PROG)

prop("P09", "One-sided deposits and withdrawals are worth what the curve says",
 "Depositing one token mints the LP tokens by which the pool's value grows in proportion, rounded down, after charging the trading fee on the half that is effectively traded; withdrawing one token burns the LP tokens by which the value falls, rounded up, with the same fee added. Exactly the stated token amount moves and nobody else's balance changes except the fee account's.",
 ["inputs"], "every curve with one-sided liquidity, reserves, LP supply, amount, side, fee setting and holder",
 NO_PROC+"calculator tests compare with a swap plus a deposit to half a percent.", [C("base"), C("constant_product"), C("constant_price"), C("stable"), PR],
 [("fee on half", C("base")+" deposit_single_token_type / withdraw_single_token_type_exact_out"), ("square-root share", C("constant_product")+" deposit_single_token_type")],
 "Product roots to twelve decimals, stable within three units of the invariant (1000:1), price exact.", PROG)

prop("P10", "No operation lowers what an LP token is worth",
 "The value of the pool per LP token never falls through a swap, deposit or withdrawal by anyone, up to the rounding unit of the operation. Value is the constant product's root, the total at the fixed price, or the stable invariant.",
 ["histories"], "every curve with liquidity, fee setting and history of all operations by several users, with donations and burns in between",
 "A statement over histories mixing all operations; the tests check single calculator steps.",
 [C("base"), C("calculator"), PR], [("rounding against the requester", "every curve"), ("order of fee, burn and transfer", PR)],
 "Per-step slack: one LP token for minted owner fees, 1e-11 of the supply (not rounded up to an LP token) for roots, one unit per stable trade.", HIST)

prop("P11", "Every fee is charged at its stated rate, to the right party, and only then",
 "Trade, owner, withdrawal and host fees are their stated fraction of the amount, rounded down but at least one unit when the rate and amount are positive, and rates of one or more are refused at creation. The owner receives LP tokens worth exactly the owner fee, the host its share of those, and withdrawals pay the withdrawal fee in LP tokens to the fee account, which itself withdraws free of it.",
 ["inputs", "configurations"], "every fee rate in 64 bits, every curve, amount, pool state, host or no host, and withdrawals by the fee account itself",
 NO_PROC+"unit tests cover a handful of rates.", [C("fees"), C("base"), PR],
 [("fee arithmetic", C("fees")+" calculate_fee"), ("owner and host LP tokens", PR+" process_swap"), ("withdrawal fee", PR+" process_withdraw_*")],
 "Exact fee arithmetic; the owner's LP tokens to the precision of P09.", PROG)

prop("P12", "Slippage limits are binding and exact",
 "A request with a limit succeeds if and only if its outcome respects the limit: at least the minimum received, at most the maximum paid. The limit never changes the outcome, and a request refused for its limit leaves everything as it was.",
 ["inputs"], "every request kind on every curve and state, with limits equal to, one unit either side of, and far from the outcome",
 NO_PROC+"the boundary of each limit on each side is not exercised.", [PR], [("limit comparisons", PR+" each process_*")],
 "Each accepted request rerun with limits around its own outcome.", "metamorphic PBT: each accepted request rerun with limits around its outcome, through the entry point")

prop("P13", "Tokens only move between the parties of a request, and none appear or vanish",
 "An accepted request conserves the total of each trading token and changes only the balances of the requester, the pool, and the fee receivers it names; LP supply changes only by what is minted and burned to them. No other account changes in any byte, and a refused request changes nothing.",
 ["histories"], "every curve, fee setting and history of operations by several users including refused requests",
 NO_PROC+"conservation is a claim about all accounts over whole histories.", [PR], [("token transfers, mints and burns", PR+" token_transfer / token_mint_to / token_burn")],
 "Real SPL token processor behind a model of the runtime; every byte of every account compared.", HIST)

prop("P14", "Only the pool's own accounts are accepted",
 "A request succeeds only with the accounts recorded at creation: the pool's reserves, LP mint, fee account, authority and token program, in their places. Substituting, exchanging or omitting any of them, using a reserve as the user's own account, or presenting a state account the program does not own or that is not initialised, is refused and nothing moves.",
 ["inputs", "fault_sequences"], "every request kind on every curve, with any one or several accounts replaced by any other account in a world with a sibling pool, look-alike accounts and foreign programs",
 NO_PROC+"no test presents a wrong account.", [PR, ST], [("account checks", PR+" check_accounts, process_swap"), ("ownership of the state account", PR)],
 "Replacements that mean the same pool (user-side accounts of the right mint) are judged by effect, not refused.", "fault-injecting PBT: accounts of valid requests substituted, exchanged, dropped or forged")

prop("P15", "Nothing leaves a user's accounts without that user's signature",
 "A user's tokens or LP tokens move only if the owner, or a delegate within its allowance, signed the request. A request with a missing or foreign signature, a frozen or underfunded account, or an insufficient allowance is refused and moves nothing.",
 ["inputs", "fault_sequences"], "every request kind on every curve with every authority setting: unsigned, signed by others, delegated with and without allowance, frozen, short of funds",
 NO_PROC+"authority is not tested.", [I("swap"), I("deposit_all_token_types"), I("withdraw_all_token_types"), I("deposit_single_token_type_exact_amount_in"), I("withdraw_single_token_type_exact_amount_out"), PR],
 [("required signer", "instructions/*.rs account constraints"), ("user authority on each transfer", PR)],
 "Real SPL token processor enforces authorities; the runtime model merges privileges as the chain does.", "fault-injecting PBT over authorities of valid requests")

prop("P16", "A pool starts exactly as requested, or not at all",
 "Creating a pool records exactly the given accounts, mints, fees, curve and its parameters, and mints one billion LP tokens to the named destination. Any defect in the request (wrong authority, owners, mints, delegates, close or freeze authorities, existing LP supply, bad fees or curve, accounts that are not what they should be) is refused with the error that names it, and nothing changes.",
 ["inputs", "fault_sequences"], "every curve, parameters, fees and opening balances, with none, one or two of 34 kinds of defect",
 NO_PROC+"no test creates a pool.", [PR, ST, I("initialize"), LIB], [("creation checks", PR+" process_initialize")],
 "Single defects must give their exact error; double defects must be refused.", "fault-injecting PBT of pool creation against a model of the acceptance rules")

prop("P17", "A pool's configuration never changes after creation",
 "Once a pool exists, no request of any kind changes its recorded configuration in any byte, and creating a pool again at the same address is refused without effect.",
 ["histories"], "every curve and history of operations mixed with repeated creation attempts under the same or different parameters",
 NO_PROC+"immutability is a claim over histories.", [PR, ST], [("already-in-use check", PR+" process_initialize"), ("state packed only at creation", PR)],
 "Byte comparison after every step.", HIST)

prop("P18", "Pool state survives storage unchanged and foreign bytes are refused",
 "What is stored for a pool reads back exactly as it was written, in the documented 324-byte layout, for every configuration. Bytes that are not a valid stored pool (wrong version, length, flags or curve kind) are refused, and whether an account counts as initialised agrees with what reading it says.",
 ["inputs"], "every configuration and arbitrary byte strings of any length",
 "Unit tests round-trip one configuration.", [ST, C("base"), C("fees"), C("linear_price"), C("constant_price"), C("stable"), C("offset"), C("constant_product")],
 [("pack and unpack", ST+" SwapVersion / SwapV1, "+C("base"))], "Independent encoder and decoder of the layout; unused parameter bytes are ignored.", "round-trip and differential PBT against an independent codec")

prop("P19", "Curves that are closed to liquidity stay closed",
 "On linear and offset pools nobody can add liquidity, one-sided or two-sided, and on linear pools nobody can withdraw it either, at any time in the pool's life. So the tokens of a linear pool move only by trading.",
 ["histories", "inputs"], "every linear and offset pool, at any point of its history including when no LP tokens are left, and every liquidity request",
 NO_PROC+"the guards are untested at the processor.", [PR, C("linear_price"), C("offset"), C("calculator")],
 [("deposit guard", PR+" process_deposit_*"), ("unsupported operations", C("linear_price"))], "Requests otherwise in order, in generated states.", PROG)

prop("P20", "The 18-decimal number type computes correctly rounded results",
 "Every operation of the fixed-point number (from and to integers, floor, ceiling, add, subtract, multiply, divide, square root helpers, comparison, conversion to the 12-decimal type) gives the exact result rounded as documented, or reports overflow; it never wraps or returns a wrong value.",
 ["inputs"], "all pairs of 256-bit values, weighted to limits and to values near powers and units",
 "The tests cover examples and a few large values; overflow branches with their pre-division are barely reached.",
 [DFS], [("each checked operation", DFS)], "1024-bit reference; documented precision loss where an intermediate leaves 256 bits.", CALC)

prop("P21", "Square roots are correctly bounded and rounded",
 "The integer square root rounded down never exceeds the true root and rounded up never falls below it, both within relative 2^-30 of it, and a perfect square of which no more than 64 bits matter comes out exact.",
 ["inputs"], "all 256-bit radicands, weighted to squares and their neighbours, powers of two and extremes",
 "The tests check a few dozen radicands.", [DFS], [("32-bit mantissa root", DFS+" sqrt_u64 and its callers")],
 "Roots squared back in 1024-bit integers.", CALC)

prop("P22", "No request or stored data can crash the program",
 "Whatever a request asks, whatever balances the accounts hold and whatever bytes they contain, the program answers with success or an error; it never aborts on overflow, a division by zero, an index or an unwrap.",
 ["inputs", "fault_sequences"], "every curve calculation on any parameters and amounts, every request with any 64-bit amounts on any pool that can be created, and damaged accounts, account lists and instruction bytes",
 "Crash freedom over all inputs; tests use friendly sizes.", [PR, C("linear_price"), C("constant_product"), C("constant_price"), C("stable"), C("offset"), C("fees"), ST, DFS],
 [("checked arithmetic throughout", S)], "Built with overflow checks, so wrap-around counts as an abort.", "fuzzing of calculators, requests and raw bytes in process, panics and wrap-arounds as failures")

prop("P23", "Creation constraints are enforced, and the production build has them on",
 "With constraints configured, a pool is created only if its fee account belongs to the configured owner, its curve is one of those allowed, its trade, owner-trade and owner-withdraw fees are at least the configured ones over the same denominators, and its host fee equals the configured one. The production build applies the owner it was built for, the constant-price and constant-product curves, and an owner trade fee of at least 5/10000 with host fee 20/100.",
 ["inputs", "configurations"], "every constraint set, curve, fee setting and fee account owner; and the production build through its entry point",
 NO_PROC+"two unit tests check single fee comparisons; the production configuration is never compiled by the tests.", [CO, PR, I("initialize")],
 [("constraint validation", CO+" validate_curve / validate_fees"), ("production constants", CO+" SWAP_CONSTRAINTS")],
 "The check builds the program with the production feature for a fixed owner address.", "differential PBT against the acceptance predicate, in the production build")

prop("P24", "Each instruction does what its name and arguments say",
 "Every instruction of the program's interface performs exactly the request it names with its arguments in the documented order and its accounts in the documented places; the linear-price instruction always sets zero fees. Instruction data that is truncated or unknown is refused without effect.",
 ["inputs"], "every instruction with any arguments, on every curve, plus truncated, extended and unknown instruction data and accounts without the needed write permission",
 NO_PROC+"argument order and account order of the interface are only covered by the TypeScript tests, which do not run here.", [LIB, I("initialize"), I("swap"), I("deposit_all_token_types"), I("withdraw_all_token_types"), I("deposit_single_token_type_exact_amount_in"), I("withdraw_single_token_type_exact_amount_out")],
 [("dispatch", LIB), ("account lists", "instructions/*.rs handlers")], "Entry point against direct execution of the request on the same state.", "differential PBT: encoded instruction against the direct request")

prop("P25", "A pool's behaviour depends on nothing but the pool and the request",
 "The outcome of a request depends only on the pool's configuration, the balances involved and the request itself: not on the addresses used, on requests to other pools, or on how the pool reached its state. On constant-product pools exchanging the roles of the two tokens gives the mirror image.",
 ["histories", "configurations"], "every curve and fee setting, histories interleaved with those of another pool, repeated under other addresses, from directly built equal states, and mirrored",
 "A relation between whole histories in different worlds; no test compares two runs.", [PR, ST], [("state held only in accounts", PR), ("direction by account identity", PR+" trade_direction")],
 "Outcomes and all balances compared exactly at every step.", "metamorphic stateful PBT: the same history in different worlds")

prop("P26", "Nobody profits from trading back and forth, or in and out of the pool",
 "A user who trades and trades back, in any number of pieces, or deposits and then redeems everything, never ends with more than at the start, up to the rounding units of the curve. Splitting a trade into pieces never yields more than making it at once.",
 ["histories"], "every curve, fee setting, pool state and sequence of one user's trades, deposits and redemptions (stable pools: reserves within 1000:1)",
 "A statement about sequences; the tests have one-step value checks.", [C("linear_price"), C("constant_product"), C("constant_price"), C("stable"), C("base"), PR],
 [("rounding against the requester", "every curve")], "Rounding allowances: one unit per stable trade, arithmetic tolerance of the line; one recorded finding on far unbalanced stable pools.", HIST)

prop("P27", "Asking for more never gets less, and offering more never pays less",
 "With everything else equal, a larger request takes at least as much from the requester and gives at least as much, up to the rounding tolerance of the curve.",
 ["inputs"], "every curve, fee setting, state and request kind, with pairs of sizes one unit to orders of magnitude apart",
 "A relation between two executions at all sizes; no test compares sizes.", [C("linear_price"), C("constant_product"), C("constant_price"), C("stable"), C("fees"), PR],
 [("monotone formulas and roundings", "every curve")], "Tolerances as in P02, P03, P07, P09.", "metamorphic PBT: pairs of sizes of the same request")

prop("P28", "LP holders can always leave with their share, whoever leaves first",
 "After any history on a pool with liquidity, every LP holder can redeem any part of the holding at any time for exactly its share, unless that share rounds to nothing on a side that is not empty. A redemption never lowers what the remaining LP tokens are backed by, and when the last LP token of a constant-product or stable pool is redeemed nothing is left behind.",
 ["histories"], "every curve with liquidity, fee setting and history, then redemptions by all holders in any order and in any pieces",
 NO_PROC+"full exits are not exercised.", [PR, C("calculator"), C("constant_price"), C("offset")], [("proportional redemption", "pool_tokens_to_trading_tokens"), ("cap at the reserve", PR+" process_withdraw_all_token_types")],
 "Exact amounts for every redemption.", HIST)

prop("P29", "The value a curve reports for a pool is its true value",
 "The pool value reported by a curve is the square root of the product of the reserves (with the offset added for offset pools), half of the total worth at the fixed price, or the stable invariant.",
 ["inputs"], "every curve but the linear one (whose reported value is a truncated mantissa, used by tests only), and reserves in 64 bits",
 "Tests use this value as their own yardstick and never check it.", [C("constant_product"), C("offset"), C("constant_price"), C("stable")], [("value", "normalized_value in each curve")],
 "Roots to eleven decimals of their size, stable within three units (1000:1), price exact.", CALC)

prop("P30", "A refused request says what is wrong with it",
 "When exactly one thing is wrong with a request that would otherwise succeed, it is refused with the error that names that thing, under its published number, and nothing changes: a wrong state account, authority, reserve, LP mint, fee account or token program; a reserve used as the user's account; a missed limit; an amount of zero; a deposit on a curve without deposits; an account that is not a token account; and the token program's own errors for missing funds, frozen accounts, foreign signatures and mismatched mints.",
 ["inputs", "fault_sequences"], "every request kind on every curve in generated states, through the entry point and the processor, with each of 25 kinds of single fault, and the number of every error",
 NO_PROC+"no test provokes an error at the processor; clients depend on the numbers to tell users what to correct.",
 [S+"error.rs", PR, C("base"), C("calculator")], [("error numbers", S+"error.rs"), ("account checks", PR+" check_accounts and each process_*"), ("refusal of zero amounts", "map_zero_to_none in each curve")],
 "Only single faults, so the order of the checks does not matter. Errors of the account framework (missing signature at the entry point) are judged as refusals only.", "fault-injecting PBT: one fault at a time in a request that would succeed, exact error compared")

prop("P31", "The bundled client reads pools and builds requests the way the program does",
"The TypeScript client in app/src takes from a pool's account exactly the accounts, rates, curve type and authority the program stored there, and refuses accounts that are missing, foreign, uninitialised or too short. It encodes every unsigned 64-bit number as the 8 little-endian bytes the program reads, and back, and refuses larger ones. For every kind of request it lists the accounts in the program's order with the signer and writable marks the program needs, signs with the accounts it marks, and sends the arguments in the program's order; it creates pool accounts of the program's size, owned by the program, with rates, curve and parameters in place. The program executes the requests the client sends.",
["inputs", "configurations"], "all u64 numbers, pools of every curve and fee set as the program stores them, every kind of request with and without host, creation with every single-parameter curve",
"the client has no tests that run without a validator and the Rust tests never see it; a layout or an account order that drifts from the program's shows only when real tokens move.",
["app/src/index.ts", "app/src/layout.ts", "app/src/util/account.ts", S+"state.rs", PR], [("what the client reads", "app/src/index.ts TokenSwapLayout, loadTokenSwap"), ("what it sends", "app/src/index.ts swapInstruction and its siblings, createInitSwapInstruction")],
"Known findings: the client still names instructions by the one-byte tags of SPL token-swap where the program expects eight, so accounts and arguments are judged behind the tag. bn.js, buffer-layout and @solana/web3.js are stand-ins.", "differential PBT: the client's own source under node against the program's stored bytes and the program's execution of the client's accounts")

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "bash run.sh setup",
         "checks": [{"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
                     "technique": tech, "level": "exploration", "level_note": note} for p, note, tech in P],
         "not_applicable": [],
         "notes": "No hooks: the harness uses the crate's public interface. Rust 1.70 toolchain of the repository, all dependencies from the offline cargo cache."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
main()
