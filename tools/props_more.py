p("C14", "The EVM boundary decodes, dispatches and refuses exactly as specified",
  "Function selectors and hashes computed at compile time and at run time are the Keccak-256 of their text, and addresses map to precompile names exactly as declared. Values written for contracts follow the Solidity ABI byte for byte and read back equal, and any input that does not hold the expected arguments (truncated, out of range, pointing outside) is refused without panicking. A precompile runs exactly the function whose selector was called, on the decoded arguments, and not at all in a static context, with value or from a caller, delegation or nesting depth it was not declared to accept. Logs carry the topics and data they were given, and gas for logs, subcalls, look-ups and dispatched runtime calls is charged by the EVM's schedule before the work it pays for: a call that cannot pay does not run.",
  ["inputs", "histories"], "all texts, argument types and values, all call data including malformed, all callers, contexts and nesting depths",
  "The unit tests fix single encodings and calls; coding has to be right for every nesting of types and refuse every malformed input.",
  ["precompiles/utils/src/solidity/codec/mod.rs", "precompiles/utils/src/solidity/codec/native.rs", "precompiles/utils/src/solidity/codec/bytes.rs", "precompiles/utils/src/precompile_set.rs", "precompiles/utils/macro/src/lib.rs", "precompiles/utils/macro/src/derive_codec.rs", "precompiles/utils/macro/src/precompile_name_from_address.rs", "runtime/hydradx/src/evm/evm-utility/src/lib.rs", "runtime/hydradx/src/evm/evm-utility/macro/src/lib.rs"],
  [("ABI coding", "precompiles/utils/src/solidity/codec"), ("dispatch macro", "precompiles/utils/macro/src/precompile"), ("caller checks", "precompiles/utils/src/precompile_set.rs"), ("costs and logs", "precompiles/utils/src/evm"), ("dispatch into the runtime", "precompiles/utils/src/substrate.rs"), ("selectors and hashes", "runtime/hydradx/src/evm/evm-utility")])
p("C15", "A call permit runs the signed call, at most once, before its deadline",
  "A call permit is dispatched only if the named account signed exactly the submitted target, value, data, gas limit, deadline and its current nonce for this chain and this contract, and the deadline has not passed. The call made is the signed one, with the signer as caller. Each executed permit raises the signer's nonce by one and nothing else, so no permit runs twice, not even from within its own call, and a refused or failed permit changes nothing.",
  ["inputs", "histories"], "all permits, tampered fields, signers, replays, re-entrant calls, deadlines and gas budgets",
  "The unit tests submit a few fixed signatures; replay and tampering have to fail for every field and in every order.",
  ["precompiles/call-permit/src/lib.rs"],
  [("permit digest, nonce and dispatch", "precompiles/call-permit/src/lib.rs")], ["calls made through the precompile handle", "stored nonces"])
p("C16", "The Omnipool keeps its books, its rules and its authorities",
  "After any sequence of calls, the hub asset held by the Omnipool equals the sum of the assets' hub reserves plus what was donated; every asset's shares equal what positions and the protocol hold; every position is one NFT and one of its owner's. A call moves only the tokens it is for, between the caller, the pool and the named recipient. A trade, deposit or withdrawal is executed only within the caller's limits, the minimum amounts, the in/out ratios, the price barrier, the weight cap and the asset's tradability, and a call within all of them is not refused. Only the authority adds or removes assets, changes settings or takes protocol liquidity, and the hooks and events report the true amounts. A refused call changes nothing. The spot price that other pallets read is that of the pool's reserves at that moment.",
  ["histories", "inputs"], "all sequences of trades, liquidity changes, position transfers, donations and governance calls on any set of assets, fees and existential deposits",
  "The pallet's tests run a handful of fixed scenarios; the books have to balance and the limits to hold after every call of every history.",
  ["pallets/omnipool/src/lib.rs", "pallets/omnipool/src/types.rs", "pallets/omnipool/src/traits.rs", "pallets/omnipool/src/router_execution.rs", "math/src/omnipool/math.rs"],
  [("calls and state changes", "pallets/omnipool/src/lib.rs"), ("price barrier", "pallets/omnipool/src/traits.rs"), ("state and tradability", "pallets/omnipool/src/types.rs"), ("quotes and execution", "pallets/omnipool/src/router_execution.rs")], ["all balances, pool state, positions and NFTs before and after every call", "arguments of the hooks", "events"])
p("C17", "Trades and liquidity calls conserve tokens",
  "A trade moves exactly the amount paid from the trader to the pool and the amount received from the pool to the trader, plus the fees to their declared recipients, and nothing else: no other account, no other asset and no reserved balance changes. Trades never mint or destroy a traded asset; deposits and withdrawals mint and burn exactly the shares reported; the issuance of every asset equals the sum of all balances after every call.",
  ["histories", "inputs"], "all sequences of trades, deposits and withdrawals over all pools, assets, fees and existential deposits",
  "The pallets' tests compare a few balances after fixed scenarios; conservation has to hold for every account and asset after every call.",
  ["pallets/omnipool/src/lib.rs", "pallets/stableswap/src/lib.rs", "pallets/xyk/src/lib.rs", "pallets/lbp/src/lib.rs"],
  [("Omnipool trades", "pallets/omnipool/src/lib.rs"), ("Stableswap trades", "pallets/stableswap/src/lib.rs"), ("XYK trades", "pallets/xyk/src/lib.rs"), ("LBP trades", "pallets/lbp/src/lib.rs")], ["all balances and issuances before and after every call"])
p("C18", "A Stableswap pool keeps its books, its rules and its authorities",
  "A pool is two to five distinct registered assets created once by the authority, with its amplification inside the allowed range and following exactly the scheduled change. A trade, deposit or withdrawal is executed at the amounts the pool's mathematics gives for the true reserves, only within the caller's limits, the minimum amounts, the tradability of each asset and the minimum pool liquidity, and a call within all of them is not refused. Quotes equal execution, whether called directly or through the router. Value per share never falls, hooks and events report the true state, only the authority changes fee, tradability or amplification, and a refused call changes nothing.",
  ["histories", "inputs"], "all sequences of trades, deposits, withdrawals, donations, share transfers and governance calls over pools of two to five assets, decimals and fees",
  "The pallet's tests run fixed scenarios on a few pools; books, limits and schedules have to hold after every call of every history.",
  ["pallets/stableswap/src/lib.rs", "pallets/stableswap/src/types.rs", "pallets/stableswap/src/trade_execution.rs", "math/src/stableswap/math.rs"],
  [("calls and state changes", "pallets/stableswap/src/lib.rs"), ("pool types", "pallets/stableswap/src/types.rs"), ("routed execution", "pallets/stableswap/src/trade_execution.rs")], ["all balances, pools and tradability before and after every call", "arguments of the hooks", "events"])
p("C19", "An XYK pool keeps its product, its shares and its rules",
  "A pool belongs to one pair of distinct assets with one share token, whose issuance is the recorded liquidity. Trades, deposits and withdrawals move exactly the amounts of the constant-product formula with the fee on top, rounded in favour of the pool: the product never falls in a trade and value per share never falls in a deposit or withdrawal. A call is executed only within the caller's limits, the minimum amounts and the in/out ratios, and one within all of them is not refused; quotes equal execution; burning the last share destroys the pool. Hooks and events report the true amounts, other pools are untouched and a refused call changes nothing. The spot price that other pallets read is that of the pool's reserves at that moment.",
  ["histories", "inputs"], "all sequences of pool creations, trades (with or without discount), deposits, withdrawals, share transfers and donations, over fees, ratios and existential deposits",
  "The pallet's tests run fixed scenarios on one or two pools; product, shares and limits have to hold after every call of every history.",
  ["pallets/xyk/src/lib.rs", "pallets/xyk/src/trade_execution.rs", "pallets/xyk/src/types.rs", "math/src/xyk/math.rs"],
  [("calls and state changes", "pallets/xyk/src/lib.rs"), ("routed execution", "pallets/xyk/src/trade_execution.rs")], ["all balances, pools and share issuance before and after every call", "arguments of the hooks", "events"])
p("C20", "A liquidity bootstrapping sale runs as scheduled, for its owner",
  "A pool trades only between its start and end block, at the weights its schedule gives for the block, within the caller's limits and the in/out ratios; quotes equal execution. The fee, raised until the repay target is collected, goes to the pool's one collector and stays locked there until the pool is wound up. Only the owner updates a pool (before the sale starts), adds to it or winds it up (never during the sale), receiving all of its reserves; only the authority creates one, within the weight, duration and fee rules. A refused call changes nothing. The spot price that other pallets read is that of the pool's reserves at that moment.",
  ["histories", "inputs"], "all sequences of creations, updates, trades, additions, wind-ups and blocks over weights, fees, targets and collectors",
  "The pallet's tests run fixed sales; schedule, fee locking and authority have to hold at every block of every sale.",
  ["pallets/lbp/src/lib.rs", "pallets/lbp/src/trade_execution.rs", "math/src/lbp/lbp.rs"],
  [("calls and state changes", "pallets/lbp/src/lib.rs"), ("routed execution", "pallets/lbp/src/trade_execution.rs")], ["all balances, locks and pools before and after every call", "events"])
p("C21", "Routed trades chain honestly and only better routes are stored",
  "A routed trade executes exactly the hops of the route given, or else of the stored route of the pair (reversed for the reverse direction), or else the default pool, each hop trading what the one before yields, at the amounts quoted beforehand and within the caller's limit. Only the trader's and the pools' balances move; a pool that charges less or pays more than quoted is refused. A route is contiguous, between the two assets and at most five hops; a stored one holds only sufficient assets, works in both directions and is strictly better both ways than the one it replaces if that one works; the trial leaves no trace and the setter pays nothing. Only the technical origin stores a route unchecked. The spot price of a route is the product of its hops' prices. Events report the true amounts and a refused call changes nothing.",
  ["histories", "inputs"], "all sequences of routed trades and route updates over all pools, reserves, routes, pool behaviours, deposits and sufficiency of assets",
  "The pallet's tests use pools that answer with constants, so chaining, limits and the comparison of routes are never exercised on live reserves.",
  ["pallets/route-executor/src/lib.rs", "traits/src/router.rs"],
  [("trades and stored routes", "pallets/route-executor/src/lib.rs"), ("pool dispatch and reversal", "traits/src/router.rs")], ["every hop executed by a pool", "all balances and stored routes before and after every call", "events"])
p("C22", "The circuit breaker stops a block that trades or adds too much",
  "Within one block the net amount of an asset traded in or out, and the liquidity added or removed, never exceed the asset's configured share of what the pool held when the block first touched it; the call that would cross a limit is refused and leaves no trace, and one within it is not refused. Opposite trades offset each other, the hub asset, exempt accounts and root are not limited, and every block starts afresh from the limits then in force. Only the technical origin changes limits, and only to valid ones, never for the hub asset.",
  ["histories", "inputs"], "all sequences of trades, liquidity changes, limit changes and blocks over assets, limits, initial liquidities and callers",
  "The pallet's tests try single crossings of one limit; the net volume has to be right after every sequence in a block.",
  ["pallets/circuit-breaker/src/lib.rs"],
  [("limits, volumes and per-block reset", "pallets/circuit-breaker/src/lib.rs")], ["stored limits and volumes after every call", "outcome of every call"])
p("C23", "The price oracle reports exactly what was traded, smoothed over time",
  "For each tracked source and pair, the entry of every period is the exponential moving average of the prices, volumes and liquidities reported per block: a block's reports are combined (volumes add up, the last price and liquidity win) and are readable only from the next block on; blocks without reports continue the last price and liquidity with no volume. The average stays between the values reported, the last-block entry is the last report, the age counts from the first report, and the reverse pair reads as the inverse. Untracked pairs, zero liquidity and reports beyond the per-block capacity change nothing; only the authority tracks or untracks a pair, and untracking forgets it.",
  ["histories", "inputs"], "all sequences of reports, tracking changes and gaps of any number of blocks, over all sources, pairs and periods",
  "The pallet's tests compare single updates; averages have to stay right over long histories with gaps, reversals and removals.",
  ["pallets/ema-oracle/src/lib.rs", "pallets/ema-oracle/src/types.rs", "math/src/ema/math.rs"],
  [("accumulator and stored averages", "pallets/ema-oracle/src/lib.rs"), ("entries and updates", "pallets/ema-oracle/src/types.rs"), ("average formulas", "math/src/ema/math.rs")], ["every stored and returned oracle entry", "the accumulator before and after every call"])
p("C24", "Transaction fees are paid once, in the payer's currency, at the block's price",
  "A fee is withdrawn from the payer alone, in the currency the account has chosen or the transaction itself sets, converted at the price fixed for the block (the oracle's, or else the voted fallback), at least one unit; after execution the unused part returns to the payer and the rest goes to the fee receiver, so that nothing is created or lost. A fee that cannot be priced or afforded refuses the transaction without a trace, and no oracle price can stop a block. Only accepted currencies can be chosen, only the authority accepts, removes or resets them, and an account's choice follows its balances. A signed permit runs unsigned, in its signer's currency, never fails, leaves no trace when validated, and an unpaid failure alerts the handler. An EVM address is bound once, to its own account.",
  ["histories", "inputs"], "all sequences of transactions, transfers, currency votes, price changes, permits and blocks over prices, fees, tips and existential deposits",
  "The pallet's tests fix single fees and prices; conversion, refund and the choice of currency have to hold for every price and balance and across blocks.",
  ["pallets/transaction-multi-payment/src/lib.rs", "pallets/evm-accounts/src/lib.rs", "pallets/currencies/src/lib.rs"],
  [("fee withdrawal, settlement and permits", "pallets/transaction-multi-payment/src/lib.rs"), ("address binding", "pallets/evm-accounts/src/lib.rs")], ["all balances and chosen currencies before and after every step", "prices stored for the block", "the scripted permit contract's view"])
p("C25", "A DCA schedule spends only its budget, when due and within its limits",
  "A schedule is accepted only from its owner, with a budget of at least the minimum, covering a trade and its fee, and reserves exactly the budget. Each schedule is planned in exactly one future block: the one asked for, or a later one if that is full; it runs then and only then, paying the fee of one execution from its own reserve. It trades the instructed amount (a sell at most what remains) along its route only if the oracle price is stable within its threshold and the trade keeps both its own limit and the slippage from the last block's price; a trade that fails takes nothing but the fee. Price, limit and retryable failures are retried after 10, 20, 40... blocks up to the allowed number, others end the schedule. When the rest no longer covers another trade, or the owner or the technical origin stops it, the whole rest is returned. The reserve of an owner always is the sum of what his schedules have left.",
  ["histories", "inputs"], "all sequences of schedules, terminations, price and oracle moves and router failures over many blocks, and every order of execution within a block",
  "The pallet's tests follow single schedules; budgets, plans and retries have to hold for many schedules sharing blocks, reserves and random execution order.",
  ["pallets/dca/src/lib.rs", "pallets/dca/src/types.rs"],
  [("scheduling, execution, retries and termination", "pallets/dca/src/lib.rs"), ("orders and their routes", "pallets/dca/src/types.rs")], ["all free and reserved balances before and after every block and call", "schedules, remaining amounts, retries, owners and plan", "events of each execution", "the trades the router received"])
p("C26", "An OTC order pays exactly its terms, from its own reserve",
  "Placing an order reserves exactly the amount offered; asset and amounts below the multiple of the existential deposit are refused. Anyone can fill it: in whole for its two amounts, or, if it allows that, in part for the amount offered in proportion, rounded in the owner's favour, as long as both remaining amounts stay above the minimum. A fill moves exactly the two amounts between filler and owner and nothing else, so over any history the owner never sells below his price. Only the owner cancels, and gets the whole rest back. The reserve of an owner always is the sum of what his open orders offer, and a refused call changes nothing, even if part of the reserve is gone.",
  ["histories", "inputs"], "all sequences of orders, fills, cancellations and settlements over amounts, assets and existential deposits",
  "The pallet's tests fill single orders with round numbers; proportions, minimums and reserves have to hold over long histories of partial fills.",
  ["pallets/otc/src/lib.rs"],
  [("placing, filling and cancelling", "pallets/otc/src/lib.rs")], ["all balances, reserves, orders and events before and after every call"])
p("C27", "OTC settlement closes arbitrage at nobody's cost",
  "A settlement fills an order (the whole of it unless it is partially fillable) and sells what it bought along the given route, which must be the current one; it succeeds only with at least the minimum profit and, for a partially fillable order, only if the route's price ends within the allowed precision of the order's price. The owner gets his terms, the pools their trades, the profit goes to the profit receiver; issuance and the settling account end as before. A failed settlement changes nothing. The off-chain worker never crashes, runs on validators only, lists each open arbitrage once, best first, and the transaction it sends for the best order succeeds; unsigned settlements are accepted only from the own node or a block.",
  ["histories", "inputs"], "all sequences of orders, trades, settlements and worker runs, including repeated runs at one height after the orders changed",
  "The pallet's tests settle single orders against one pool; profit, precision and the worker's search have to be right for all orders, pools and forks.",
  ["pallets/otc-settlements/src/lib.rs", "pallets/otc/src/lib.rs"],
  [("settlement and the worker's search", "pallets/otc-settlements/src/lib.rs")], ["all balances and issuances before and after every settlement", "the worker's stored list and submitted transactions"])
p("C28", "Contracts see and move the chain's own assets, and nothing else",
  "From Ethereum, every asset has one fixed address and no other address is an asset's. The contract there answers with the chain's own name, symbol, decimals, total issuance and balances, and a transfer moves exactly what the chain's own transfer would, between the accounts bound to the two addresses, or reverts without a trace. Everything it does not support (unknown or short input, value attached, static transfers, amounts above the chain's range, allowances) is refused and changes nothing. Each precompile answers at its own address only, none of the chain's own through DELEGATECALL, and every other address is left to the interpreter. An unused address is bound once to one account, and only admitted addresses deploy contracts.",
  ["inputs", "histories"], "all call inputs, contexts, addresses, assets, balances and sequences of bindings and deployer changes",
  "The repository tests single calls on a few assets; encodings, contexts and account mapping have to hold for every input and address.",
  ["runtime/hydradx/src/evm/precompiles/mod.rs", "runtime/hydradx/src/evm/precompiles/multicurrency.rs", "runtime/hydradx/src/evm/precompiles/erc20_mapping.rs", "runtime/hydradx/src/evm/accounts_conversion.rs", "pallets/evm-accounts/src/lib.rs"],
  [("asset contracts", "runtime/hydradx/src/evm/precompiles/multicurrency.rs"), ("dispatch of precompiles", "runtime/hydradx/src/evm/precompiles/mod.rs"), ("addresses of assets", "runtime/hydradx/src/evm/precompiles/erc20_mapping.rs"), ("binding and deployers", "pallets/evm-accounts/src/lib.rs")], ["the answer to every call", "all balances, issuances and raw storage before and after every call", "logs and subcalls a contract makes"])
p("C29", "Ethereum transactions and permits run only when valid and cost the gas used",
  "An Ethereum transaction or permit reaches the interpreter only if its nonce, gas limit, fee cap and value are covered by what the payer holds in his fee currency, and then unchanged and once. The fee taken up front is the converted maximum; after the run the gas used goes to the treasury and the rest back to the payer, with nothing minted or lost. A permit runs only with its signer's signature over exactly its terms, this chain and the next permit nonce, before its deadline; running it raises that nonce by one and leaves the account nonce alone. What is refused leaves no trace, except that unpaid failures pause permits. The base fee follows congestion and the ether price within its band.",
  ["inputs", "histories"], "all transactions, permits, tampered permits, prices, balances, fee currencies and gas outcomes, in any sequence",
  "The repository's permit and fee tests need the whole node; fee conversion, refunds and replay protection have to hold for every price, balance and forgery.",
  ["runtime/hydradx/src/evm/permit.rs", "runtime/hydradx/src/evm/runner.rs", "runtime/hydradx/src/evm/evm_fee.rs", "pallets/transaction-multi-payment/src/lib.rs", "pallets/dynamic-evm-fee/src/lib.rs", "runtime/adapters/src/price.rs"],
  [("permits", "runtime/hydradx/src/evm/permit.rs"), ("validation before running", "runtime/hydradx/src/evm/runner.rs"), ("charging and settling", "runtime/hydradx/src/evm/evm_fee.rs"), ("base fee", "pallets/dynamic-evm-fee/src/lib.rs")], ["what reaches the interpreter", "all balances, nonces and raw storage before and after every step", "stored base fee every block"])
p("C30", "Stakers share the fees by stake and points, out of the pot alone",
  "Anyone may stake once an authority has initialised the pot, at least the minimum and only free money that is neither vesting nor staked; the stake and all rewards added to it stay locked and the one position stays with its owner. Fees in the native asset go to the pot and are owed to the positions of that moment in proportion to their stake. What a position has earned becomes payable along the sigmoid of its points: one share per period since it began, plus votes times conviction in finished referenda counted once each, less points spent before. A claim pays that share, unlocks earlier rewards and spends the points; the rest waits, or goes back to the pot when leaving. The pot always covers everything owed, nobody is paid twice, money only moves from pot to staker, and a refused call changes nothing.",
  ["histories", "inputs"], "all sequences of stakes, increases, votes, referendum ends, removals, fees, claims and exits by several stakers over many periods",
  "The pallet's tests follow single positions with round numbers; shares, points and locks have to hold over long interleaved histories.",
  ["pallets/staking/src/lib.rs", "pallets/staking/src/types.rs", "pallets/staking/src/integrations/democracy.rs", "math/src/staking/math.rs"],
  [("stakes, claims and rewards per stake", "pallets/staking/src/lib.rs"), ("votes and convictions", "pallets/staking/src/types.rs"), ("votes in referenda", "pallets/staking/src/integrations/democracy.rs")], ["all balances and locks before and after every call", "positions, totals, votes and counted votes after every step", "the events and shares each claim reports"])
p("C31", "Liquidity mining pays each deposit its own share and no more",
  "A farm's creator funds it once; in every period it pays out at most its planned share and never more than what was put in. The period's reward is split among yield farms by their stake (value of deposited shares times multiplier) and inside a farm by shares, from the period a deposit entered, along its loyalty curve and never for a time before it entered. A deposit can only be claimed, re-deposited or withdrawn by the owner of its NFT, at most once per period, only with the pool it was made for, and gets back exactly the shares it locked. Stopped farms stop earning, resumed ones do not earn for the gap, and only the farm's owner may change, stop or end it. The pot always covers all that is owed; at the end it returns the rest to the owner, and a refused call changes nothing.",
  ["histories", "inputs"], "all sequences of farm creation, deposits, re-deposits, claims, withdrawals, stops, resumes and updates by several users over many periods",
  "The tests follow fixed scripts with chosen periods; shares and pots must add up over any interleaving of farms, deposits and time.",
  ["pallets/liquidity-mining/src/lib.rs", "pallets/liquidity-mining/src/types.rs", "pallets/xyk-liquidity-mining/src/lib.rs", "math/src/liquidity_mining/liquidity_mining.rs"],
  [("farms, deposits, claims", "pallets/liquidity-mining/src/lib.rs"), ("who may call and with which shares", "pallets/xyk-liquidity-mining/src/lib.rs")], ["balances of all accounts before and after every call", "farms, deposits and pots against an exact model after every step", "the amount each claim pays"])
p("C32", "Farmed Omnipool positions stay locked, earn their value and come back whole",
  "An Omnipool position can be put into a farm only by its owner, into an active farm of its asset, and counts with its amount at the oracle's price in the hub asset. While it is in any farm nobody can use, sell or remove the position itself; the deposit token alone gives the right to claim, to enter further farms and to leave. When the last farm is left, exactly that position goes to the holder of the deposit token, and each deposit locks one position of its own. Rewards, stakes and pots follow the farms' rules exactly, what is paid in never exceeds the funding, and a refused call changes nothing.",
  ["histories", "inputs"], "all sequences of adding liquidity, farming, claiming, handing on, leaving and using positions by several users, at any oracle price",
  "The tests walk fixed scripts; ownership of a position moves between two NFTs and three pallets and has to be right after any interleaving.",
  ["pallets/omnipool-liquidity-mining/src/lib.rs", "pallets/liquidity-mining/src/lib.rs", "pallets/omnipool/src/lib.rs"],
  [("locking, value and ownership", "pallets/omnipool-liquidity-mining/src/lib.rs"), ("farm accounting", "pallets/liquidity-mining/src/lib.rs"), ("positions", "pallets/omnipool/src/lib.rs")], ["owners of all positions and deposit tokens after every call", "all balances, farms and deposits against an exact model", "the amount each claim pays"])
p("C33", "Referral fees reach the referrer and the trader, and are paid out exactly",
  "A code is 4 to 7 ASCII letters and digits, kept in capitals, belongs to the one account that paid its fee, and is never taken over; one account has one code. Anyone links once, to another's code, for good. Of each trade fee in an asset that can be priced the pot takes exactly the shares set for the asset and the referrer's level, at most the fee, and credits referrer, trader and the external account with it; without a price it takes nothing. Collected assets are converted into the reward asset, all of them, by anybody or in idle time within its weight. A claim pays the claimer's part of the pot by his shares, uses those shares up, raises his level as his volume allows and never lowers it; the pot covers all claims together. Splits are set by the authority alone and never exceed the whole. A refused call changes nothing.",
  ["histories", "inputs"], "all sequences of registrations, links, trades, conversions and claims by several accounts, over codes, assets, prices, levels and splits",
  "The pallet's tests follow single referrals with fixed prices; shares, levels and the pot have to add up over long interleaved histories.",
  ["pallets/referrals/src/lib.rs", "pallets/referrals/src/traits.rs"],
  [("codes, links, fees, conversions and claims", "pallets/referrals/src/lib.rs")], ["all balances before and after every step", "codes, links, levels and shares against an exact model", "events and raw storage after every call"])
p("C34", "Every bond is backed one to one and redeemed at maturity",
  "Issuing takes exactly the stated amount of an allowed asset from the issuer, gives the protocol fee to its receiver, locks the rest in the bond account and mints exactly that many bonds, of the one asset that stands for this underlying and maturity and whose name says so; new bonds mature in the future. Only a mature bond is redeemed, one to one and by whoever holds it, and the redeemed bonds are burnt. So at any time the bond account holds the underlying of every bond in existence. A refused call changes nothing.",
  ["histories", "inputs"], "all sequences of issues, transfers, redemptions and passage of time over assets, amounts, maturities and existential deposits",
  "The pallet's tests issue and redeem single bonds; backing has to hold for many bonds of the same asset, partial redemptions and reused maturities.",
  ["pallets/bonds/src/lib.rs"],
  [("issue and redemption", "pallets/bonds/src/lib.rs")], ["all balances and issuances before and after every call", "the held underlying against all outstanding bonds"])
p("C35", "The asset registry keeps every asset's identity unique and consistent",
  "Every registered asset keeps its id; a name names one asset and a location one asset, in both directions and through every update, and nothing is left behind when they change. New assets get the next id, or the reserved one the authority asks for; external assets are registered by anybody, once per location. Names and symbols are well formed, decimals are set once and type, deposit and limits change only by those allowed to. Bans are the committee's. What other pallets read (existential deposit, decimals, sufficiency, rate limit, location, name) is what is stored, and of an unknown asset nobody can hold any amount. A refused call changes nothing.",
  ["histories", "inputs"], "all sequences of registrations, updates, location changes and bans by all origins, over ids, names, symbols, types and locations",
  "The pallet's tests make single changes; the maps have to stay consistent over any history of changes, collisions and removals.",
  ["pallets/asset-registry/src/lib.rs", "pallets/asset-registry/src/types.rs"],
  [("registration, update, locations", "pallets/asset-registry/src/lib.rs"), ("names and details", "pallets/asset-registry/src/types.rs")], ["all maps of the registry after every call", "what each query answers for every asset", "events and raw storage after every call"])
p("C36", "The currencies facade is exactly the ledger that holds the asset",
  "Whatever is done through the currencies pallet with an asset - transfers, deposits, withdrawals, slashes, locks, reserves, named reserves, moving everything, and every query, by pallet call, by trait or as a fungible - has the same result and leaves the same state as doing it on the native currency for the native asset and on the token ledger for any other. Only the asset and accounts named are touched, transfers move and deposits add exactly the amount, zero amounts and transfers to oneself do nothing, each movement is reported once as it happened, and balances are only written by governance. Moving everything moves all or nothing.",
  ["histories", "inputs"], "all sequences of operations through every interface, over assets, accounts, amounts, locks, reserves and existential deposits",
  "The pallet's tests call some functions for one asset each; every function must route both kinds of asset, in any state of locks and reserves.",
  ["pallets/currencies/src/lib.rs", "pallets/currencies/src/fungibles.rs"],
  [("routing and adapters", "pallets/currencies/src/lib.rs"), ("fungibles interface", "pallets/currencies/src/fungibles.rs")], ["result and raw storage of every operation against the same operation on the ledger", "events of every operation", "all balances and issuances"])
p("C37", "Dust is swept to the treasury, and only dust",
  "Anyone can dust an account in an asset exactly when the account holds some, less than the asset's existential deposit, and is not spared; all of it then goes to the dust account, which is reported, and the caller is rewarded from the reward account if that can pay. A token remnant below the deposit that a transfer leaves behind goes to the dust account as well, except in a spared account, which keeps it; no token is ever lost to dust. Accounts are spared or not only by governance or by pallets for their own accounts. A refused call changes nothing.",
  ["histories", "inputs"], "all sequences of transfers, changes of existential deposits, dusting and list changes over accounts and assets",
  "The pallet's tests dust single prepared accounts.",
  ["pallets/duster/src/lib.rs"],
  [("dusting, rewards and the list", "pallets/duster/src/lib.rs")], ["all balances before and after every call", "the list of spared accounts", "events and raw storage"])
p("C38", "A claim is paid once, to the account its Ethereum key signed for",
  "A claim is paid exactly when the signature, over the Ethereum message of the set prefix and the caller's account in lowercase hex, recovers an address with an unpaid claim, and the account can exist with it: the caller gets exactly the amount due, it is reported, and nothing is due to that address any more. A signature for another account, another message, a replayed or malformed one pays nothing and changes nothing. Only transactions with a valid claim enter the pool; other calls are not held up. Initial claims of an address add up, and addresses are written and read as 40 hex digits.",
  ["inputs", "histories"], "all signatures, signers, senders and amounts, and replays of earlier claims",
  "The pallet's tests use two fixed signatures.",
  ["pallets/claims/src/lib.rs", "pallets/claims/src/traits.rs"],
  [("claims and the transaction check", "pallets/claims/src/lib.rs"), ("message and recovery", "pallets/claims/src/traits.rs")], ["balances, claims and events after every claim", "the verdict of the transaction check for every claim"])
p("C39", "Exactly the paused calls are stopped, and pausing can be undone",
  "Governance pauses and unpauses any call by its pallet and function name, each at most 40 bytes, but never a call of the pausing pallet itself. The filter stops a call exactly when its pallet and function are paused at that moment. Every change is reported once, repeating it changes and reports nothing, and a refused call changes nothing.",
  ["histories", "inputs"], "all sequences of pausing and unpausing by any origin with any names, and all calls in between",
  "The pallet's tests pause two calls.",
  ["pallets/transaction-pause/src/lib.rs"],
  [("list and filter", "pallets/transaction-pause/src/lib.rs")], ["the verdict of the filter for many calls after every change", "the stored list", "events and raw storage"])
p("C40", "Each collator of a session is rewarded once, when it ends",
  "The collators chosen for a session are passed on unchanged and remembered; when that session ends each of them that is not excluded gets exactly the reward, is reported, and the list is forgotten, so that a session pays once. More collators than fit are refused. All calls reach the underlying session manager.",
  ["histories", "inputs"], "all sequences of session starts and ends in any order, over collator lists with repetitions and exclusions",
  "The pallet's test ends one session with a fixed list.",
  ["pallets/collator-rewards/src/lib.rs"],
  [("sessions and rewards", "pallets/collator-rewards/src/lib.rs")], ["balances and events at every session change", "the remembered lists"])

p("C41", "Cross-chain messages pay for their weight, swap fairly and land right",
  "A message that buys execution pays exactly the weight's fee at the price of the paid asset, once more when it buys again; a refund never exceeds what was paid, comes in the asset and at the price paid, and the rest reaches the fee receiver when the message ends. An exchange sells everything given for at least what is wanted, or buys exactly what is wanted for at most what was given and returns the rest; an exchange that cannot be made returns everything and changes nothing. Deposits and transfers land with the beneficiary, or with the reroute account exactly when the filter says so, and a failed deposit is reported; assets nobody knows go to their own ledger. A message users may execute holds only transfer and swap instructions, within the depth and count allowed.",
  ["inputs", "histories", "faults"], "all sequences of buying weight and refunding with any price, fee and holding; all exchanges of any terms over any routes, with closed markets; all deposits, withdrawals and transfers of any asset between any places; all nestings of instructions",
  "The adapters' tests check a few prices, one buy, one sell and a handful of fixed messages.",
  ["runtime/adapters/src/lib.rs", "runtime/adapters/src/xcm_exchange.rs", "runtime/adapters/src/xcm_execute_filter.rs"],
  [("weight trader and rerouting adapter", "runtime/adapters/src/lib.rs"), ("exchange", "runtime/adapters/src/xcm_exchange.rs"), ("message filter", "runtime/adapters/src/xcm_execute_filter.rs")], ["payment, holding and every balance around each step", "the root of the state around failures"])

p("C42", "Prices along a route and what pools report are passed on unaltered",
  "The price of a route is the product of its hops' oracle prices, each from the pool kind the hop trades in and over the period asked for, and there is none when a hop has none. The fee price of an accepted currency is its route's price to the native currency, else its fallback, else none; a balance in another currency is the free balance at that price, rounded up, and zero without a price. Every Omnipool and stableswap report reaches the oracle with the true assets, amounts, liquidity and price, and Omnipool reports reach the breaker, which alone may stop them, with the true volumes. A trade fee goes to referrals, then to staking, and what is reported used is exactly what left. Volumes, locks and balances are read as they are.",
  ["inputs", "histories"], "all routes of up to nine hops over any oracle prices with gaps; all sequences of reports with any deltas and reserves over any limits; all fees",
  "The adapters' tests check one or two routes of fixed prices; reports are only seen inside integration tests.",
  ["runtime/adapters/src/lib.rs", "runtime/adapters/src/price.rs", "runtime/adapters/src/inspect.rs"],
  [("route prices and hooks", "runtime/adapters/src/lib.rs"), ("currency prices", "runtime/adapters/src/price.rs"), ("balance views", "runtime/adapters/src/inspect.rs")], ["oracle accumulator and breaker state after every report", "prices against an exact product"])
p("C43", "Every NFT has one owner, who alone may move it, as its collection's type permits",
  "A collection is created once, under an id outside the reserved range unless the runtime creates it, and belongs to its creator; its owner alone mints into it, an item's owner alone transfers or burns it, and an empty collection's owner alone destroys it, each only where the collection's type permits it: everything for a marketplace collection, transfers alone for a liquidity mining one. Calls from other pallets skip the permissions but not the checks of ownership they ask for. Deposits are held for marketplace collections and items and given back in full when they go. Every list and reader agrees with the ownership, every change is reported once with the true parties, and a refused one changes nothing.",
  ["histories", "inputs"], "all sequences of creating, minting, transferring, burning and destroying by any account, through extrinsics and through the traits other pallets use, under the shipped and any other permissions",
  "The pallet's tests run each call on one or two items.",
  ["pallets/nft/src/lib.rs", "pallets/nft/src/types.rs"],
  [("collections and items", "pallets/nft/src/lib.rs"), ("permissions by collection type", "pallets/nft/src/types.rs")], ["all collections, items, owners and reserved balances after every operation", "the events", "every reader of the traits"])
p("C44", "A referendum counts every vote once, and holds voters to what they staked",
  "At every moment the tally of a running referendum is the sum, over those who vote in it, of their stake by conviction together with the stake of everyone who delegates to them. It ends in its block, carries exactly by its threshold, and what carried is scheduled once, as root, after its delay; what was cancelled is never enacted. Nobody's lock is ever less than their largest vote, delegation, or conviction still running, and unlocking leaves exactly that; others may only remove votes that bind no more. Deposits behind a public proposal are held, returned to each backer when it is tabled, and lost when it is blacklisted or cancelled. External and public proposals take turns, a vetoed one waits, each power is the named origin's alone, staking hears of every vote and removal once, and a refused call changes nothing.",
  ["histories", "inputs"], "all sequences of proposing, backing, tabling, voting, delegating, removing and unlocking by any accounts over any blocks and parameters; all tallies and electorates",
  "The pallet's tests follow one or two voters through fixed scripts.",
  ["pallets/democracy/src/lib.rs", "pallets/democracy/src/vote.rs", "pallets/democracy/src/types.rs", "pallets/democracy/src/conviction.rs", "pallets/democracy/src/vote_threshold.rs"],
  [("votes, delegations, referenda", "pallets/democracy/src/lib.rs"), ("locks and votes", "pallets/democracy/src/vote.rs"), ("tallies", "pallets/democracy/src/types.rs"), ("conviction", "pallets/democracy/src/conviction.rs"), ("thresholds", "pallets/democracy/src/vote_threshold.rs")], ["every tally against a count from scratch after every operation", "locks, deposits, proposals, vetoes and metadata", "scheduled calls, events and hook calls", "the decision for every tally"])
