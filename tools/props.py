#!/usr/bin/env python3
"""Source of properties.jsonl."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
SAMPLED = "The unit tests fix a handful of numeric examples and the proptests sample a narrow strategy; "
p("C01", "Omnipool trades follow the pool price and never drain it",
  "Every Omnipool trade (sell, buy, and sells or buys against the hub asset) yields the amount given by the constant-product price with the configured fees, up to rounding in the pool's favour. No trade lowers any asset's reserve-times-hub product or mints shares, the protocol fee is split exactly, and a buy delivers exactly the amount asked for. No sequence of trades returns more of the starting asset than was put in, and quoted spot prices agree with the price of small trades.",
  ["inputs", "histories"], "all pool states, amounts, fees and imbalances that fit the balance type; all trade sequences over several assets",
  SAMPLED + "rounding direction and fee split must hold for every reserve ratio, amount and fee, and across sequences of trades.",
  ["math/src/omnipool/math.rs", "math/src/omnipool/types.rs", "pallets/omnipool/src/lib.rs"],
  [("state-change calculation", "math/src/omnipool/math.rs"), ("applying the change", "pallets/omnipool/src/lib.rs")],
  ["results of the trade calculations", "pool balances and events around each trade"])
p("C02", "Omnipool liquidity positions are worth what was put in, never more",
  "Adding liquidity to the Omnipool keeps the asset's price, and mints shares and hub asset in proportion; removing it at once returns no more than was added. A position whose asset fell below its entry price gives up part of its shares to the protocol, one whose asset rose also receives hub asset, by the documented formula and less the withdrawal fee; the fee lies between the minimum and one and never decreases with the distance between oracle and spot price. No withdrawal leaves the remaining shares with less of the reserve, and weight and value caps are computed exactly.",
  ["inputs", "histories"], "all pool states, positions, entry prices, withdrawal amounts and fees; all sequences of adds and removes between trades",
  SAMPLED + "the share, hub and reserve deltas must agree for every price move between entry and exit.",
  ["math/src/omnipool/math.rs", "math/src/omnipool_subpools/math.rs", "pallets/omnipool/src/lib.rs"],
  [("add/remove calculation", "math/src/omnipool/math.rs"), ("positions as NFTs", "pallets/omnipool/src/lib.rs")],
  ["liquidity results", "positions, shares and hub reserve before and after"])
p("C03", "Stableswap trades keep the pool invariant and the quoted price",
  "A stableswap sell gives, and a buy charges, the amount that keeps the amplified invariant, rounded in the pool's favour and less the fee, for any number of assets and decimals, and the invariant never falls in any trade history. The invariant the pool computes lies within two units of the exact one. Spot and share prices match small trades, and amplification moves linearly between its start and end.",
  ["inputs", "histories"], "pools of two to five assets with mixed decimals, all amplifications, reserves, amounts and fees; trade histories",
  SAMPLED + "Newton iteration and decimal normalisation must be right at every reserve ratio and decimals mix.",
  ["math/src/stableswap/math.rs", "pallets/stableswap/src/lib.rs"],
  [("Newton iteration for D and Y", "math/src/stableswap/math.rs"), ("trade execution", "pallets/stableswap/src/lib.rs")],
  ["swap results", "pool reserves and share issuance"])
p("C04", "Stableswap shares never gain value at the expense of other holders",
  "Adding or removing stableswap liquidity, in one asset or several, by amount or by shares, never lowers the invariant held per remaining share beyond rounding. Depositing and withdrawing straight away never profits. Shares of the first deposit equal the invariant, and every result lies within rounding of the exact fee-adjusted formula.",
  ["inputs", "histories"], "pools of two to five assets, all deposit mixes, share amounts and fees",
  SAMPLED + "the value per share must never fall for any imbalance, fee or order of deposits and withdrawals.",
  ["math/src/stableswap/math.rs", "pallets/stableswap/src/lib.rs"],
  [("share calculation", "math/src/stableswap/math.rs"), ("share issuance", "pallets/stableswap/src/lib.rs")],
  ["shares minted and burned", "reserves per share"])
p("C05", "XYK pools keep their product, fees and share value",
  "An XYK trade never lowers the product of the reserves, delivers the constant-product amount rounded in the pool's favour and charges exactly the configured fee. Adding liquidity takes the second asset in the pool's ratio rounded up and mints shares in proportion rounded down; removing pays both assets in proportion rounded down. Prices quoted for a pair agree with the trades.",
  ["inputs", "histories"], "all reserves, amounts and fees that fit the balance type",
  SAMPLED + "rounding has to favour the pool at every magnitude.",
  ["math/src/xyk/math.rs", "math/src/fee.rs", "pallets/xyk/src/lib.rs"],
  [("constant product", "math/src/xyk/math.rs"), ("trade execution", "pallets/xyk/src/lib.rs")])
p("C06", "LBP weights move linearly and LBP trades follow the weighted price",
  "The weight of an LBP sale at a block is the linear interpolation between its initial and final weight, monotone and never outside the two. A sell yields at most, and a buy charges at least, the exact weighted-product amount, within the precision of the power function; spot prices agree with small trades and no round trip profits.",
  ["inputs", "histories"], "all reserves, weights, amounts, fees and blocks of a sale",
  SAMPLED + "the fixed-point power has to be accurate for every weight and reserve ratio.",
  ["math/src/lbp/lbp.rs", "math/src/transcendental.rs", "math/src/fee.rs", "pallets/lbp/src/lib.rs"],
  [("linear weights and weighted product", "math/src/lbp/lbp.rs"), ("fixed-point power", "math/src/transcendental.rs")])
p("C07", "Oracle averages stay between their inputs and skip idle blocks exactly",
  "An oracle update yields a price, volume or liquidity between the previous and the incoming value, equal to the exponential average within stated precision. Updating once after n idle blocks equals n single updates, the smoothing of a period is 2/(period+1), and an entry older than a longer gap moves further. Data reported in one block is aggregated and becomes readable only after that block, exactly as reported by the sources.",
  ["inputs", "histories"], "all previous and incoming entries, periods and block gaps; all orders of trades and liquidity changes within and across blocks",
  SAMPLED + "bounds and precision have to hold for every ratio and gap.",
  ["math/src/ema/math.rs", "math/src/support/rational.rs", "pallets/ema-oracle/src/lib.rs", "pallets/ema-oracle/src/types.rs"],
  [("iterated EMA", "math/src/ema/math.rs"), ("accumulator and block finalisation", "pallets/ema-oracle/src/lib.rs")])
p("C08", "Fixed-point, ratio and wide-integer helpers are exact or faithfully rounded",
  "Ratios compare, add, subtract and round to 128-bit terms as exact rationals do, within one unit of the stated rounding direction, and never flip an order. Fractions convert to and from fixed point and multiply balances within one unit. Logarithm, exponential, power and integer power stay within the stated relative error, are monotone where the exact function is, and refuse what does not fit; checked wide-integer helpers return the exact value or nothing.",
  ["inputs"], "all operands of the types",
  SAMPLED + "every price, fee and reward goes through these helpers at magnitudes no test table lists.",
  ["math/src/ratio.rs", "math/src/fraction.rs", "math/src/transcendental.rs", "math/src/support/rational.rs", "math/src/support/u128.rs", "math/src/lib.rs"],
  [("ratio", "math/src/ratio.rs"), ("fraction", "math/src/fraction.rs"), ("transcendental functions", "math/src/transcendental.rs"), ("rounding", "math/src/support/rational.rs")])
p("C09", "Liquidity mining never pays more than the farm accrued",
  "Loyalty grows with time from its initial value towards one and never beyond; a user's claimable reward plus the part returned to the farm equals the shares' accrued reward, and a claim never exceeds what the loyalty allows. Rewards accrue by the farm's yield on the staked value, limited by what is left and by the maximum per period, so the farm's account always covers all rewards owed. Re-depositing, partial withdrawal and updating in more, smaller steps never pay more than the accrued rewards.",
  ["inputs", "histories"], "all deposits, farms, yields, loyalty curves and update periods; all sequences of deposits, claims, withdrawals and farm updates",
  SAMPLED + "solvency of the reward pot is a property of histories.",
  ["math/src/liquidity_mining/liquidity_mining.rs", "pallets/liquidity-mining/src/lib.rs", "pallets/omnipool-liquidity-mining/src/lib.rs", "pallets/xyk-liquidity-mining/src/lib.rs"],
  [("reward formulas", "math/src/liquidity_mining/liquidity_mining.rs"), ("farm accounting", "pallets/liquidity-mining/src/lib.rs")])
p("C10", "Staking rewards are bounded by what was distributed",
  "Accumulated reward per stake only grows and never hands out more than was received; a position's payable share of its rewards follows the points curve, stays between zero and one and never falls with more points. Points follow action and time weights, periods count exactly, and increasing a stake slashes points in proportion and never below zero. The staking account always covers all stakes and owed rewards.",
  ["inputs", "histories"], "all stakes, points, periods and rewards; all sequences of stake, increase, claim, unstake and votes",
  SAMPLED + "the curve and accumulators have to be right for every stake and history.",
  ["math/src/staking/math.rs", "pallets/staking/src/lib.rs"],
  [("reward and point formulas", "math/src/staking/math.rs"), ("positions", "pallets/staking/src/lib.rs")])
p("C11", "Dynamic fees stay in their range and follow the trade flow",
  "Every dynamic asset and protocol fee lies between its configured minimum and maximum for any oracle volume and liquidity. The asset fee never falls because more flowed out, nor rises because more flowed in, the protocol fee the other way round, and each decays by the configured amount per idle block. Within one block the fee of an asset does not change.",
  ["inputs", "histories"], "all volumes, liquidities, parameters, previous fees and block gaps",
  SAMPLED + "the range must hold at every volume to liquidity ratio.",
  ["math/src/dynamic_fees/math.rs", "pallets/dynamic-fees/src/lib.rs"],
  [("recalculation", "math/src/dynamic_fees/math.rs"), ("storing the fee of the block", "pallets/dynamic-fees/src/lib.rs")])
p("C12", "The rate limiter defers exactly what exceeds its limit",
  "The accumulated amount of an asset decays linearly to zero over the configured period and never below zero. An incoming transfer is deferred by zero blocks exactly while the accumulated amount stays within the limit, otherwise in proportion to the excess and never by more than the maximum. Splitting a transfer does not shorten the deferral beyond rounding.",
  ["inputs", "histories"], "all limits, amounts, periods and arrival times",
  SAMPLED + "accumulation across many messages and gaps is a history property.",
  ["math/src/rate_limiter/math.rs", "pallets/xcm-rate-limiter/src/lib.rs"],
  [("decay and deferral", "math/src/rate_limiter/math.rs"), ("per-asset accounting", "pallets/xcm-rate-limiter/src/lib.rs")])
p("C13", "No input makes a pricing or reward calculation panic",
  "Every pricing, liquidity, reward, fee, oracle and spot-price calculation answers any combination of representable inputs with a value or an error. It never panics, overflows or divides by zero, so no transaction or query can halt block production.",
  ["inputs"], "all combinations of representable inputs, including zeros and extremes",
  SAMPLED + "only hostile inputs over the whole type reach the overflow and zero-division paths.",
  ["math/src/omnipool/math.rs", "math/src/stableswap/math.rs", "math/src/xyk/math.rs", "math/src/lbp/lbp.rs", "math/src/liquidity_mining/liquidity_mining.rs", "math/src/staking/math.rs", "math/src/transcendental.rs"],
  [("checked arithmetic", "math/src")])
exec(open('/verif/tools/props_more.py').read()) if __import__('os').path.exists('/verif/tools/props_more.py') else None
for q in P:
    assert len(q["title"]) <= 80, q["id"]
open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(q) + '\n' for q in P))
