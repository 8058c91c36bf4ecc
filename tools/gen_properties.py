#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements can be edited readably)."""
import json
C='contracts/core/src/'; A='contracts/airdrop/src/'; P='contracts/periphery/src/'; I='packages/interface/src/'; L='packages/pool/src/'; M='packages/math/src/'; U='packages/utils/src/'
def m(*xs): return [{"name":n,"where":w} for n,w in xs]
def s(*xs): return [{"name":n,"meaning":k,"where":w} for n,k,w in xs]
PS=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=False):
    PS.append(dict(id=id,title=title,statement=' '.join(statement.split()),quantifier=dict(over=over,text=' '.join(text.split())),
      why_tests_cant=' '.join(why.split()),anchors=dict(files=files,mechanism=m(*mech),state=s(*state),observe_at=list(observe),hook_needed=(hook or None))))

p('C01','Index tokens are always fully collateralised',
"""At every point of every history the core contract's bank balance of each asset covers the asset's unit times the outstanding index supply, plus the streaming fee accrued but not yet realised, plus what a running rebalance holds in reserve. Consequently, whenever the index is neither paused nor rebalancing, all holders together can redeem the whole supply and the collector can then realise the whole accrued fee out of what the contract holds, in any order.""",
['histories','inputs','configurations'],
"every interleaving of mints, burns, fee accruals and realisations, fee-strategy changes, pauses and rebalances, for all unit vectors (down to 1e-18), fee rates, amounts and elapsed times",
"unit tests check the messages of single calls against hand-computed values; none keeps a bank ledger over a sequence of calls, so rounding that leaks one base unit per call, or an accounting term dropped across two operations, is invisible to them.",
[C+'execute/token.rs',C+'state/units.rs',C+'state/fee.rs',C+'execute/fee.rs',C+'execute/gov/update.rs',C+'execute/rebalance/'],
[('required/redeemed amount per unit',C+'state/units.rs calc_require_amount / calc_refund_amount'),('fee moved out of units into collected',C+'state/fee.rs StreamingFee::collect'),('unit changes tied to swaps',C+'execute/rebalance/trade')],
[('INDEX_UNITS','asset amount per index token',C+'state/mod.rs'),('TOTAL_SUPPLY','outstanding index tokens',C+'state/mod.rs'),('FEE.streaming_fee.collected','accrued, not realised',C+'state/fee.rs'),('RESERVE_UNITS','reserve held during a rebalance',C+'state/mod.rs')],
['bank balances','GetPortfolio','GetFee','GetTotalSupply'])

p('C02','Minting takes exactly the required basket and issues exactly the amount',
"""An accepted mint of an amount takes from the payer, for every index asset, exactly the unit times the amount rounded up to a whole base unit (at least one), and returns every excess of the attached funds to the refund address. It creates exactly that amount of index tokens: the mint fee (the rate times the amount rounded down, at least one when a rate is set) goes to the collector and the rest to the receiver. A mint whose funds miss or underfund an asset, or contain any other denom, is rejected and changes nothing; a mint with sufficient funds succeeds whenever the index is neither paused nor rebalancing.""",
['inputs','histories','configurations'],
"all amounts, unit vectors, fee configurations, attached fund sets (exact, excess, missing, foreign) and receiver/refund targets, at any point of a history",
"the two mint tests use one portfolio and one amount each, with round numbers, and look only at the emitted messages.",
[C+'execute/token.rs',C+'state/units.rs',C+'contract.rs'],
[('mint',C+'execute/token.rs mint'),('funds check and refund',C+'state/units.rs calc_refund_amount')],
[('TOTAL_SUPPLY','outstanding index tokens',C+'state/mod.rs')],['bank balance changes of every account','GetTotalSupply'])

p('C03','Burning redeems exactly the holder\'s share and is always possible',
"""An accepted burn sends the burn fee (rate times the amount received, rounded down) to the collector, destroys exactly the rest, and pays the redeem address, for every index asset, exactly the unit times the destroyed amount rounded down, and nothing else moves. It accepts only the index token as payment. Whenever the index is neither paused nor rebalancing, a burn of any positive amount a holder owns succeeds.""",
['inputs','histories','configurations'],
"all amounts (from one base unit), unit vectors, fee configurations and redeem targets, at any point of a history",
"the two burn tests use one portfolio and one amount, do not execute the bank messages, and cannot see that a later burn is refused.",
[C+'execute/token.rs',C+'state/units.rs',C+'contract.rs'],
[('burn',C+'execute/token.rs burn')],[('TOTAL_SUPPLY','outstanding index tokens',C+'state/mod.rs')],['bank balance changes of every account','GetTotalSupply'])

p('C04','The reported supply is the real supply',
"""After every transaction the total supply the core contract reports equals the bank supply of the index denom and the sum of all holders' balances, and the balance it reports for an account is that account's bank balance. Only mints and burns change the supply, by exactly the minted and destroyed amount; fees, realisations, governance and rebalancing never do.""",
['histories','inputs'],
"every history of core operations, accepted and rejected, including partial failures of sub-messages",
"tests store the supply by hand and never run a token factory, so the stored number and the real supply are never compared.",
[C+'execute/token.rs',C+'query.rs',C+'contract.rs'],
[('supply bookkeeping',C+'execute/token.rs'),('denom creation reply',C+'contract.rs reply'),('queries',C+'query.rs get_total_supply/get_balance')],
[('TOTAL_SUPPLY','outstanding index tokens',C+'state/mod.rs'),('CONFIG.index_denom','the factory denom',C+'state/config.rs')],['GetTotalSupply','GetBalance','bank supply'])

p('C05','No sequence of mints and burns extracts value',
"""Starting and ending without index tokens, no account can gain any asset through any sequence of mints and burns, however the amounts are split or ordered, at a fixed or an advancing time. Doing so also never lowers what any other holder can redeem, beyond the fee accrued in the meantime and its rounding.""",
['inputs','histories','configurations'],
"all attack sequences of splits and merges of mint and burn amounts, all unit vectors (including fractional ones), with and without fees, interleaved with other users and with time passing",
"tests run one mint or one burn; rounding in the caller's favour only shows over a round trip with fractional units.",
[C+'execute/token.rs',C+'state/units.rs'],
[('rounding of required and redeemed amounts',C+'state/units.rs')],[],['bank balances of the attacker and of the contract','SimulateBurn'])

p('C06','Streaming fee accrues exactly, conserves value and respects freezing',
"""When a streaming fee is set and not frozen, elapsed time dt moves the share (1+rate)^dt - 1 of every unit out of the portfolio: each unit drops by exactly that share and the accrued fee grows by the dropped unit times the supply, rounded down, per asset. Each second is charged exactly once however operations are spaced; nothing accrues while the fee is frozen (including the whole of a rebalance), when no time passes, or without a streaming fee, and a newly set streaming fee is never charged for time before it was set.""",
['histories','inputs','configurations'],
"all rates up to the maximum, all spacings of operations in time, all supplies and units, across fee changes and rebalances",
"the collect test uses one time step on one portfolio; double charging, skipped time and freeze windows need several operations at different times.",
[C+'state/fee.rs',C+'execute/fee.rs',C+'contract.rs',C+'execute/rebalance/init.rs',C+'execute/rebalance/finalize.rs'],
[('accrual',C+'state/fee.rs StreamingFee::collect'),('accrual before operations',C+'contract.rs execute'),('freeze',C+'execute/rebalance/init.rs'),('unfreeze',C+'execute/rebalance/finalize.rs')],
[('FEE.streaming_fee','rate, collected, freeze, last_collected_at',C+'state/fee.rs')],['GetFee','GetPortfolio'])

p('C07','Every fee reaches the collector, exactly once, and nobody else',
"""Mint and burn fees are paid in the same transaction to the collector configured at that time. Accrued streaming fees are paid out in full by a realisation, which only the collector can perform and which leaves nothing accrued; a change of the fee strategy never forfeits what accrued under the old one. Over any history the sum paid to collectors plus what is still accrued equals the sum of all fees charged.""",
['histories','inputs','configurations'],
"every history of mints, burns, realisations and fee-strategy or collector changes, by authorised and unauthorised senders",
"tests check one realisation after one accrual; losing or paying twice needs an accrual, a strategy change and a realisation in sequence.",
[C+'execute/fee.rs',C+'execute/token.rs',C+'execute/gov/update.rs'],
[('realisation',C+'execute/fee.rs realize_streaming_fee'),('strategy change',C+'execute/gov/update.rs update_fee'),('fee transfers',C+'execute/token.rs')],
[('FEE','collector, rates, accrued',C+'state/fee.rs')],['bank transfers to collectors','GetFee'])

p('C08','Queries and simulations predict exactly what execution does',
"""The portfolio, fee, mint simulation and burn simulation queried for the current or a future time report exactly the units, accrued fees and amounts (received, spent, refunded, redeemed) that a mint, burn or realisation executed at that time then produces. Asking changes nothing, and asking for now equals asking without a time.""",
['histories','inputs','configurations'],
"all portfolios, fees, amounts, supplied funds and query times not before the last accrual, at any point of a history",
"there are no tests of the queries at all; the simulation re-implements the execution arithmetic.",
[C+'query.rs',C+'execute/token.rs',C+'state/fee.rs'],
[('projection in time',C+'query.rs get_portfolio/get_fee'),('simulations',C+'query.rs simulate_mint/simulate_burn')],[],['GetPortfolio','GetFee','SimulateMint','SimulateBurn','bank balance changes'])

p('C09','Pausing blocks minting and burning exactly until expiry or release',
"""While a pause is in force no mint and no burn succeeds. A pause with an expiry ends by itself at exactly that second, one without an expiry lasts until released, and the reported paused state agrees with this at every time. A pause can only be set when none is in force and with an expiry in the future, and only a pause in force can be released.""",
['histories','inputs'],
"all orders of pause, release, mint, burn and time steps, with operations landing one second before, at and after the expiry",
"the pause tests check one call each; whether a mint at the expiry second is allowed after a chain of pauses is not sampled.",
[C+'state/pause.rs',C+'execute/gov/pause.rs',C+'execute/token.rs',C+'state/config.rs'],
[('expiry',C+'state/pause.rs refresh'),('guards',C+'state/config.rs assert_not_paused')],[('CONFIG.paused','paused flag and expiry',C+'state/config.rs')],['Mint, Burn, Pause, Release outcomes','GetConfig'])

p('C10','Only governance governs, and governance moves only by two-step handover',
"""Pausing, releasing, changing the fee strategy, the reserve denom, the rebalance manager or trade infos, starting a rebalance, and proposing or revoking a successor succeed only for the current governance address. The governance address changes only when the currently proposed successor accepts; at most one proposal is pending, a revoked or used proposal cannot be accepted, and a rejected attempt changes nothing.""",
['histories','inputs'],
"all senders (current and former governance, pending, collector, manager, users) and all orders of propose, accept, revoke and privileged calls",
"tests check single calls by one wrong sender; replays after revocation, former governance and stale proposals need histories.",
[C+'execute/gov/update.rs',C+'execute/gov/pause.rs',C+'execute/rebalance/init.rs',C+'state/config.rs'],
[('authorisation',C+'state/config.rs check_gov'),('handover',C+'execute/gov/update.rs update_gov/accept_gov/revoke_gov')],[('CONFIG.gov','current governance',C+'state/config.rs'),('PENDING_GOV','proposed successor',C+'state/mod.rs')],['outcome of every privileged message','GetConfig'])

p('C11','A rebalance is an exclusive, correctly gated phase',
"""At most one rebalance runs; while it runs no mint, burn, fee-strategy or reserve-denom change succeeds, and trades, finalisation and manager changes succeed only while it runs. Trades and finalisation are restricted to the manager when one is set and open to anyone otherwise. A rebalance starts only from a plan with non-empty, duplicate-free, disjoint deflation and inflation lists whose deflation targets are existing assets at or below their current unit and whose inflation weights are all positive; it finalises only when every deflation target has been reached and the whole reserve has been spent, and then leaves no asset with a zero unit.""",
['histories','inputs','configurations'],
"all plans (valid and malformed in each way), managers, senders and orders of init, trade, finalise, manager change, mint and burn",
"tests save the rebalance state by hand and call one step; the phase as a whole is never driven.",
[C+'execute/rebalance/init.rs',C+'execute/rebalance/finalize.rs',C+'execute/rebalance/trade/mod.rs',C+'state/rebalance.rs',C+'execute/gov/update.rs',C+'execute/token.rs'],
[('plan validation',C+'state/rebalance.rs validate'),('gates',C+'execute/token.rs, execute/gov/update.rs'),('finalisation conditions',C+'execute/rebalance/finalize.rs')],[('REBALANCE','running plan and manager',C+'state/mod.rs')],['outcome of every message','GetRebalance','GetPortfolio'])

p('C12','Rebalance trades stay within plan, trade-info and caller limits',
"""Every executed trade swaps only an asset of the plan in the planned direction against the reserve denom over the registered route, and no more than the registered maximum trade amount (measured in the reserve denom), not before the cooldown since the last trade of that pair has passed. Deflating never spends more than the caller's maximum nor brings the asset's unit below its target, and delivers exactly the requested reserve; inflating never yields less than the caller's minimum nor spends more than the reserve allotted to that asset. If the market moves beyond the quoted amounts before the swap executes, the whole trade fails.""",
['histories','inputs','configurations','fault_sequences'],
"all trade amounts around every limit, all spacings around the cooldown, prices that move between quote and execution",
"tests mock one quote and never execute the swap; the limits are checked once each with values far from the boundary.",
[C+'execute/rebalance/trade/deflate.rs',C+'execute/rebalance/trade/inflate.rs',C+'state/rebalance.rs',I+'types.rs'],
[('limits',C+'execute/rebalance/trade/deflate.rs, inflate.rs'),('cooldown',C+'state/rebalance.rs assert_cooldown'),('swap messages',I+'types.rs msg_swap_exact_in/out')],[('TRADE_INFOS','route, cooldown, maximum, last trade',C+'state/mod.rs')],['outcome of Trade','executed swaps','GetTradeInfo'])

p('C13','Rebalance trades account exactly for what they swap',
"""Deflating removes from the asset's unit exactly the sold amount per index token, and adds the bought reserve per index token to the inflation assets' allotments in proportion to their weights, losing nothing; inflating moves exactly the spent reserve out of that asset's allotment and the bought amount per index token into its unit. When the reserve denom itself is deflated or inflated, its unit is moved one to one without any swap. No trade changes any other asset's unit, the supply or the accrued fees.""",
['histories','inputs','configurations'],
"all plans, weights, supplies, prices and orders of deflations and inflations",
"tests compare stored units after one trade with round numbers; allotments over several trades and weights, and their consistency with the swaps, are not sampled.",
[C+'execute/rebalance/trade/deflate.rs',C+'execute/rebalance/trade/inflate.rs',C+'state/units.rs'],
[('unit bookkeeping',C+'execute/rebalance/trade/deflate.rs inflate_reserve_unit'),('inflation',C+'execute/rebalance/trade/inflate.rs')],[('RESERVE_UNITS','reserve allotted per inflation asset',C+'state/mod.rs'),('INDEX_UNITS','units',C+'state/mod.rs')],['GetPortfolio after every trade','accepted and rejected inflation amounts','executed swaps'])

p('C14','Fee configurations outside the allowed bounds are never in force',
"""At every moment the mint and burn fee rates, where set, lie strictly between 0 and 1, and the streaming rate lies strictly above 0 and is at most 0.000000021979553 per second. An instantiation or fee-strategy change outside these bounds is rejected and leaves the old strategy in force; one inside them by the governance is accepted and takes effect as given.""",
['inputs','configurations','histories'],
"all rate values around each bound, on instantiation and on update, at any point of a history",
"the rate test samples a few values of one validation function, not the entry points that must call it.",
[C+'state/fee.rs',C+'execute/gov/update.rs',C+'contract.rs'],
[('bounds',C+'state/fee.rs check_rates'),('entry points',C+'contract.rs instantiate; '+C+'execute/gov/update.rs update_fee')],[('FEE','rates',C+'state/fee.rs')],['outcome of instantiate and UpdateFeeStrategy','GetFee'])

p('C15','The trade-info registry returns exactly what was registered',
"""A trade info is found under its input denom and the denom its route finally leads to, exactly as last registered, with the time of its last trade; registering again replaces it, including the time of the last trade, and leaves all others alone. Listing one input denom page by page, in either order and with any page size up to the maximum, returns every registered pair of that denom exactly once, in order and within the page size, and oversized pages are refused.""",
['inputs','histories'],
"all sets of registrations (including denoms that are prefixes of each other), page sizes, cursors and orders",
"no test queries the registry; pagination is only visible with more entries than a page.",
[C+'execute/gov/update.rs',C+'query.rs',I+'lib.rs',I+'types.rs'],
[('registration',C+'execute/gov/update.rs update_trade_info'),('pagination',I+'lib.rs range_option'),('listing',C+'query.rs list_trade_info')],[('TRADE_INFOS','registry',C+'state/mod.rs')],['GetTradeInfo','ListTradeInfo'])

p('C16','Every started rebalance can be carried through to finalisation',
"""From every state of a running rebalance whose pairs have routes, trade limits and liquidity, the manager has a sequence of trades after which finalisation succeeds and minting and burning work again. In particular following the plan - sell each deflation asset down to its target, then spend each allotment - leads to finalisation.""",
['histories','inputs','configurations'],
"all plans, supplies, prices and partial progress",
"tests place the final state in storage by hand; whether trades can ever reach it is not asked.",
[C+'execute/rebalance/finalize.rs',C+'execute/rebalance/trade/deflate.rs',C+'execute/rebalance/trade/inflate.rs'],
[('finalisation conditions',C+'execute/rebalance/finalize.rs'),('amount/unit conversion',C+'execute/rebalance/trade')],[('REBALANCE','running plan',C+'state/mod.rs'),('RESERVE_UNITS','unspent reserve',C+'state/mod.rs')],['outcome of Trade, Finalize, Mint and Burn'])

p('U01','Instantiation and migration keep versions and portfolios sane',
"""A contract accepts an unforced migration only from its own kind and from a strictly older version (by semantic-version order), and a successful migration, forced or not, leaves its own name and version recorded and all its other state untouched. The core contract can be instantiated only without duplicate assets and with valid addresses; it then has zero supply, no pending governance, no pause and the given portfolio, and its index denom is the one created for it.""",
['inputs','configurations','histories'],
"all stored names and versions (including multi-digit and pre-release parts), for all three contracts, at any point of a history; all portfolios at instantiation",
"one test compares two versions; ordering of multi-digit versions and state preservation are not sampled.",
[U+'lib.rs',C+'contract.rs',A+'contract.rs',P+'contract.rs'],
[('version check',U+'lib.rs store_version'),('entry points',C+'contract.rs migrate/instantiate/reply')],[('contract_info','name and version','cw2')],['outcome of migrate and instantiate','raw contract_info','queries before and after'])

p('A01','Airdrop funds are conserved and campaigns are isolated',
"""At every moment the airdrop contract holds, per denom, at least the sum over open campaigns of funded minus claimed, and exactly that when nobody sends it coins directly. A campaign never pays out more than was put into it, and claims, funding and closing of one campaign never change another one's amounts.""",
['histories','inputs'],
"all interleavings of register, fund, claim and close over several campaigns sharing denoms, by all senders",
"tests drive one campaign through one operation with mock storage and no ledger.",
[A+'execute/',A+'state.rs'],
[('claim accounting',A+'execute/claim.rs'),('funding',A+'execute/fund.rs'),('closing',A+'execute/close.rs')],[('airdrops','total_amount, total_claimed, closed_at',A+'airdrop.rs')],['bank balances','GetAirdrop'])

p('A02','Every claim is paid at most once, with exactly its amount',
"""Per campaign, a beneficiary (the account of an open airdrop, the claim hash of a bearer airdrop) is paid at most once, whoever submits the claim, under whatever identifier (id or label), and however often it is retried, and the payment is exactly the claimed amount to exactly the named account. A recorded claim never disappears or changes.""",
['histories','inputs'],
"all sequences of first claims, repeats, repeats by other senders or accounts, by id and by label, across campaigns with the same trees",
"tests repeat a claim once with the same arguments.",
[A+'execute/claim.rs',A+'state.rs'],
[('claim log',A+'state.rs assert_not_claimed'),('claim',A+'execute/claim.rs')],[('CLAIM_LOGS','paid amount per campaign and key',A+'state.rs')],['bank transfers','GetClaim','ListClaims'])

p('A03','Only entries of the committed list can be claimed',
"""A claim succeeds only if the pair of beneficiary and amount is a leaf of the campaign's committed Merkle tree with a valid proof and, for a bearer airdrop, only if the campaign's signer signed exactly this claim hash, account and amount. Every listed, properly signed entry of a sufficiently funded open campaign can be claimed with its proof. A bearer campaign can be registered only by proving control of its signer key.""",
['inputs','histories'],
"all trees (1 to hundreds of leaves), and all single and combined alterations of amount, account, proof, hash, signature and campaign",
"tests use one fixed tree and signature; forgeries are not explored.",
[A+'verify.rs',A+'execute/claim.rs',A+'execute/register.rs'],
[('proof',A+'verify.rs verify_merkle_proof'),('signature',A+'execute/claim.rs claim_bearer'),('signer proof',A+'execute/register.rs register_bearer')],[],['outcome of Claim and Register'])

p('A04','Only the creator funds and closes, and closing returns exactly the rest',
"""Only a campaign's creator can add funds to it or close it, only in its denom, and only while it is open. Closing pays the creator exactly what was funded and not claimed, and afterwards no claim, funding or second closing of that campaign succeeds.""",
['histories','inputs'],
"all senders, denoms and orders of fund, claim and close over several campaigns",
"tests close one campaign once.",
[A+'execute/close.rs',A+'execute/fund.rs',A+'execute/claim.rs'],
[('closing',A+'execute/close.rs'),('funding',A+'execute/fund.rs')],[('closed_at','height of closing',A+'airdrop.rs')],['outcome of Fund, Close, Claim','bank transfers','GetAirdrop'])

p('A05','Campaign ids, labels and listings are unique, complete and stable',
"""Campaigns get consecutive ids from 0; a label belongs to one campaign forever, resolves to it, and cannot be taken again by its creator, while different creators may use the same label text. Listings by id, type, creator and label, and of claims and labels, return page by page, in either order and with any page size up to the maximum, every matching entry exactly once, in order, with its current data.""",
['histories','inputs'],
"all sets of campaigns, labels (including ones containing separators), claims, page sizes, cursors and orders",
"queries have no tests; completeness needs more entries than a page.",
[A+'execute/register.rs',A+'state.rs',A+'query/',I+'lib.rs'],
[('ids and labels',A+'execute/register.rs; '+A+'state.rs save_label'),('listings',A+'query/'),('pagination',I+'lib.rs range_option')],[('airdrops','campaigns with type/creator indexes',A+'state.rs'),('LABELS','label to id',A+'state.rs')],['GetAirdrop','ListAirdrops','ListClaims','GetLabel','ListLabels','LatestAirdropId'])

p('A06','Claim verification agrees with claiming',
"""For an unclaimed beneficiary of a sufficiently funded campaign, verifying a claim of a positive amount that names its (valid) account reports success exactly when executing it would succeed, for open and bearer airdrops alike, and verification changes nothing. Whatever name a claim carries, verification reports success only if the list and the campaign's signer cover exactly that name.""",
['inputs','histories'],
"all genuine claims and all alterations of them, on open and closed campaigns",
"the verification query has no test and duplicates the claim's checks.",
[A+'query/claim.rs',A+'execute/claim.rs',A+'verify.rs'],
[('verification query',A+'query/claim.rs verify_claim'),('claim',A+'execute/claim.rs')],[],['VerifyClaim','outcome of Claim'])

p('P01','Mint with exact input honours the caller\'s minimum',
"""A successful mint with exact input takes exactly the attached input minus what is refunded in the same transaction, and the caller receives at least the stated minimum of index tokens, after all fees. If that cannot be met - because of fees, price impact, shared pools or prices moving before execution - the transaction fails and the caller keeps everything.""",
['inputs','configurations','histories','fault_sequences'],
"all portfolios, pool types, weights and depths, routes (direct, multi-hop, shared), fees, amounts and minimums around the feasible maximum, with swaps executing worse than quoted",
"the periphery has no unit tests and its integration tests need a chain that is not available to the suite.",
[P+'execute.rs',L+'sim/index_out.rs',L+'sim/mod.rs',L+'sim/route.rs'],
[('operation',P+'execute.rs mint_exact_amount_in'),('search',L+'sim/index_out.rs'),('limits on swaps',L+'sim/route.rs to_msgs')],[],['bank balances of the caller before and after'])

p('P02','Mint with exact output delivers it and spends at most the attached input',
"""A successful mint with exact output creates exactly the requested amount of index tokens, of which the caller receives all but the core contract's mint fee, spends no more than the attached input and returns the whole unspent rest in the same transaction. If the attached input cannot pay for it, the transaction fails and the caller keeps everything.""",
['inputs','configurations','histories','fault_sequences'],
"as for the exact-input mint, with attached inputs around the real cost",
"the periphery has no unit tests and its integration tests need a chain that is not available to the suite.",
[P+'execute.rs',L+'sim/index_out.rs',L+'sim/route.rs'],
[('operation',P+'execute.rs mint_exact_amount_out'),('cost estimate',L+'sim/index_out.rs estimate_token_given_index_out')],[],['bank balances of the caller before and after'])

p('P03','Burn with exact input honours the caller\'s minimum',
"""A successful burn with exact input redeems exactly the attached index tokens and pays the caller, in the requested output denom only, the whole proceeds, which are at least the stated minimum less at most one base unit per swapped asset. If that cannot be met, the transaction fails and the caller keeps everything.""",
['inputs','configurations','histories','fault_sequences'],
"all portfolios, pool types, routes, fees, amounts and minimums around the feasible maximum, with swaps executing worse than quoted",
"the periphery has no unit tests and its integration tests need a chain that is not available to the suite.",
[P+'execute.rs',L+'sim/index_in.rs',L+'sim/route.rs'],
[('operation',P+'execute.rs burn_exact_amount_in'),('proceeds estimate',L+'sim/index_in.rs')],[],['bank balances of the caller before and after'])

p('P04','Burn with exact output burns at most what was attached and delivers it',
"""A successful burn with exact output burns no more than the attached index tokens, returns the rest of them in the same transaction, and pays the caller the desired output short by at most the documented search tolerance (5000 base units, plus one base unit per swapped asset and the worth of two base units of the index token). If the attached tokens cannot yield the desired output, the transaction fails and the caller keeps everything.""",
['inputs','configurations','histories','fault_sequences'],
"all portfolios, pool types, routes, fees and desired outputs around what the attached tokens can yield, with swaps executing worse than quoted",
"the periphery has no unit tests and its integration tests need a chain that is not available to the suite.",
[P+'execute.rs',L+'sim/index_in.rs',L+'sim/mod.rs',L+'sim/route.rs'],
[('operation',P+'execute.rs burn_exact_amount_out'),('search',L+'sim/index_in.rs search_efficient_amount_for_output')],[],['bank balances of the caller before and after'])

p('P05','The periphery keeps nothing and its internal step is internal',
"""After every successful periphery operation that began while the periphery held none of the assets involved, it again holds none of them, so no user's dust is stranded or paid out to the next user. The finishing step, which pays out what the periphery holds, can only be invoked by the periphery itself; nobody else can have it pay anything outside of an operation of their own.""",
['histories','inputs','configurations'],
"all operations, in all orders and by all users, on all portfolios, pools, fees and amounts; direct calls of the finishing step by every kind of sender",
"the periphery has no unit tests; leftover dust depends on the rounding of specific amounts.",
[P+'execute.rs',L+'sim/route.rs'],
[('finishing step',P+'execute.rs finish_operation'),('amounts passed on',P+'execute.rs')],[],['bank balances of the periphery after every transaction'])

p('P06','Periphery quotes are honest',
"""For each of the four operations, executing an operation with the amounts its simulation quoted, in the same block, never delivers less to the caller (mint in, burn in) nor costs more (mint out, burn out) than quoted, up to the documented search tolerance (where a search is involved) and the rounding of a base unit at each swap, including all fees. For a mint of an exact output and a burn of an exact input the quoted mint, burn and basket amounts are exactly the ones the core contract then uses; for the other two they are so up to the search tolerance. Quoting changes nothing.""",
['inputs','configurations','histories'],
"all portfolios, pools, routes, fees and amounts",
"the queries have no tests here and duplicate the execution's arithmetic.",
[P+'query.rs',P+'execute.rs',L+'sim/'],
[('simulation queries',P+'query.rs')],[],['Simulate* queries','bank balances before and after the operation'])

p('M01','The power function is accurate over its whole domain',
"""For every base strictly between 0 and 2 and every exponent of ordinary pool-weight ratios (whole, fractional, below and above one), the result is the true power within the documented precision of 1e-8 (scaled by the convergence of its series near the ends of the domain). Bases outside the domain are refused, and results are consistent across exponents: raising to 0 gives one, to 1 the base itself.""",
['inputs'],
"all bases in (0,2) and exponents up to 100 with 18 decimals",
"the test compares a handful of values, none with an exponent between one and two.",
[M+'pow.rs'],[('power',M+'pow.rs pow')],[],['result of the public power function'])

p('M02','Weighted-pool estimates match the pool and never create value',
"""For weighted pools of any balances, weights and spread factor, the simulated output for a given input and the simulated input for a given output equal the constant-function-market-maker value within the power function's precision and rounding. They are monotone in the amount, never pay out more than the pool holds, and chaining simulated swaps there and back never returns more than was put in beyond that precision.""",
['inputs','histories'],
"all two- and multi-asset pools, balances, weights, spread factors and swap sizes, and sequences of swaps on one simulated pool",
"the pool package's tests cannot run in the suite; nothing else touches this arithmetic.",
[L+'weighted.rs',M+'pow.rs'],[('swap arithmetic',L+'weighted.rs'),('pool update',L+'weighted.rs apply_new_pool_assets')],[('pool_assets','simulated balances',L+'weighted.rs')],['public pool swap simulation'])

p('M03','Basket simulation is pure, additive and route-exact',
"""Estimating a basket's cost or proceeds leaves the given pools untouched and is repeatable. The total equals the sum over the basket's legs, each leg swapping exactly the unit times the index amount (rounded up and at least one when minting, rounded down when burning, as the core contract does) over exactly the route configured for its pair (hop by hop, pools shared between legs seeing earlier legs), an asset equal to the input or output denom counting one to one; a missing route or pool, or a route that does not lead from one denom of its pair to the other, is an error, never a silent skip. The route description accepted by the periphery is interpreted as written.""",
['inputs','configurations'],
"all portfolios, pool sets, routes (direct, multi-hop, shared pools, missing), denoms and amounts",
"the simulator's tests cannot run in the suite; only the route parser has two examples.",
[L+'sim/',L+'query.rs',I+'periphery.rs'],
[('basket estimates',L+'sim/index_in.rs, index_out.rs'),('pool decoding',L+'query.rs'),('route parsing',I+'periphery.rs')],[],['public simulator results against an independent evaluation of the same route'])

p('E01','Emitted events state what happened',
"""Every message that a contract executes emits the event of its operation (its method or action, and the sender as executor), in which every account, denom, identifier, amount, time and manager it names is the one the transaction really used, moved or left behind, and every stated minimum, maximum or net amount is the one the operation was held to. The index denom announced at instantiation is the one created. Every event is well-formed by the chain's rules (no empty key or value, no reserved key), so that no operation fails because of the event it emits.""",
['histories','inputs','configurations'],
"all messages of all three contracts that succeed, sent directly or by another contract, with optional fields given and left out, by id and by label, in every phase of a history",
"tests compare attribute lists built by the same helper functions as the code's, and no test passes an event through a chain, which refuses empty values; followers of the log (indexers, front ends, accounting) have nothing else to go by.",
[C+'execute/',C+'contract.rs',A+'execute/',P+'execute.rs'],
[('core events',C+'execute/token.rs mint_event/burn_event, gov/, rebalance/'),('airdrop events',A+'execute/*.rs *_event'),('periphery events',P+'execute.rs')],[],['response attributes against queries before and after and the bank ledger'])

p('W01','The TypeScript SDK and the contracts speak the same messages',
"""Every call made through the published TypeScript SDK (client, message composer or query hook) reaches the contract it is addressed to as the message of that name with exactly the arguments given, from the given sender, with the given funds, fee and memo, and different questions never share a cache key. Every message and query that the SDK's types allow is understood by the contract with exactly that meaning, every message a contract accepts and every answer it gives has the shape those types declare, and a message with a field missing, of another type or unknown is refused rather than read as something else. The published type declarations state the same types as the SDK's sources.""",
['inputs','histories'],
"all messages and queries of the three contracts in every declared variant, optional fields given, null or left out; all answers given during histories",
"the SDK is generated once and committed, with no test; Rust tests build the messages as Rust values and never meet the JSON that users of the SDK send or read.",
['packages/interface/src/','ts/sdk/src/contracts/','ts/sdk/types/contracts/'],
[('wire types','packages/interface/src/*.rs (cw_serde)'),('SDK calls','ts/sdk/src/contracts/*.client.ts, *.message-composer.ts, *.react-query.ts')],[],['JSON of messages and answers at the entry points; calls recorded by stand-ins for wallet and cache'])

with open('/verif/properties.jsonl','w') as f:
    for x in PS: f.write(json.dumps(x)+'\n')
import os
for x in PS:
    for fn in x['anchors']['files']:
        assert os.path.exists('/repo/'+fn), fn
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    # at most three sentences
    n=x['statement'].count('. ')+1
    assert n<=3,(x['id'],n)
print(len(PS),'properties')
