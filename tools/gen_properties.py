#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the property texts are maintained)."""
import json, os
P = []
def p(id, title, st, over, text, why, files, state, mech, observe, hook=None):
    P.append({"id": id, "title": title, "statement": st,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}})
SP = "staking-pool/src/lib.rs"; SI = "staking-pool/src/internal.rs"
FI = ["histories", "schedules", "fault_sequences", "inputs"]

p("C01", "Staking pool always covers what it owes its delegators",
  "After every executed receipt, the tokens the pool account really holds (liquid plus locked) are at least the sum of all delegators' reported unstaked balances plus the reported total staked balance, and the reported total staked balance is at least the sum of all delegators' reported staked balances. No order of deposits, stakes, unstakes, withdrawals, rewards, stray transfers, failed withdrawal transfers, failed stake actions, validator kick-outs or epoch switches makes the pool owe more than it holds.",
  FI, "every history of delegator/owner calls of any amounts, every delivery order of the resulting receipts, every placement of epoch switches, rewards, kick-outs, failed transfers and failed stake actions",
  "The unit tests run single calls against a mocked VM that never executes a promise, so no test sees stake actions, callbacks, refunds or epoch switches interleave; the node tests run one happy path.",
  ["staking-pool/src/internal.rs", "staking-pool/src/lib.rs"],
  [("total_staked_balance", "tokens all stake shares together represent", SP), ("last_total_balance", "account total at the last reward distribution, adjusted by deposits and withdrawals", SP), ("accounts", "per-delegator unstaked balance and shares", SP)],
  [("share rounding against a guarantee fund", SI), ("reward = current total minus remembered total minus attached deposit", SI)],
  ["get_accounts", "get_total_staked_balance", "account balance and locked balance"])

p("C02", "A delegator's balance falls only by their own withdrawal",
  "No delegator's unstaked balance, staked balance or sum of both ever decreases because of another account's call, a reward distribution, a failed action, a kick-out or the owner's actions; staking and unstaking never reduce the sum of the delegator's own two balances, and only the delegator's own successful withdrawal reduces it, by exactly the amount paid out. The price of a stake share is always at least one yocto and never decreases, so a delegator who staked an amount can unstake at least what was charged for it.",
  FI, "every history of calls by any number of delegators and the owner, every amount, every share price reached, and every interleaving with epoch switches, rewards and faults",
  "The share-price arithmetic is only unit-tested at a handful of round numbers; erosion by rounding needs adversarial amounts after many reward distributions and another delegator's interleaved operations.",
  ["staking-pool/src/internal.rs"],
  [("total_stake_shares", "shares across all delegators", SP), ("total_staked_balance", "tokens backing those shares", SP)],
  [("charge rounded down, total rounded up on stake; credit rounded up, total rounded down on unstake", SI)],
  ["get_account", "get_accounts", "get_total_staked_balance"])

p("C03", "Pool operations move exactly the documented amounts",
  "Every successful deposit, stake, unstake and withdraw (also in their combined and 'all' forms) changes the caller's unstaked and staked balances and the pool totals by exactly the documented share-accounting amounts: deposits credit exactly the attached tokens, staking charges the rounded-down value of the rounded-down shares, unstaking credits the rounded-up value of the rounded-up shares, and a withdrawal debits and sends exactly the amount asked, once, to the caller. A call that fails changes no balance and returns the attached tokens.",
  FI, "every sequence of operations and amounts (including 1 yocto, everything, more than everything, zero) at every share price, with failing, repeated and interleaved calls",
  "Tests check one or two fixed amounts with tolerance; the exact amounts depend on the share price reached by the history and on what happens when the call is the first of an epoch.",
  [SP, SI],
  [("accounts", "per-delegator balances", SP)],
  [("deposit/stake/unstake/withdraw internal operations", SI), ("transaction rollback on panic", SP)],
  ["get_account", "get_total_staked_balance", "transfers leaving the pool"])

p("C04", "Unstaked tokens are locked four epochs, then always withdrawable",
  "After an unstake, none of that delegator's unstaked balance can be withdrawn before the fourth epoch after that unstake, and the availability view says so; balances never touched by an unstake within the last four epochs are available at once. From that fourth epoch on (once calls and faults stop) a withdrawal of everything succeeds and pays the delegator in full, no matter what other delegators, the owner, kick-outs, failed stake actions or late receipts did in between.",
  FI + [], "every placement of epoch boundaries relative to unstake calls, stake-action receipts and callbacks; every history of other delegators' and the owner's operations; every kick-out or stake failure",
  "Tests set the epoch number by hand in a mocked context where no real stake is ever locked, so they cannot show that liquid tokens really are there when the lock ends.",
  [SI, SP],
  [("unstaked_available_epoch_height", "first epoch in which the unstaked balance may be withdrawn", SP)],
  [("lock set on unstake, checked on withdraw", SI), ("restake after every stake change; unstake everything if a stake action fails", SP)],
  ["is_account_unstaked_balance_available", "get_account", "withdraw_all paying out"])

p("C05", "Pool income is distributed once, with only the configured fee",
  "Every token the pool account gains other than through deposits (validation rewards, gas rebates, stray transfers, returned withdrawals) is added to the total staked balance exactly once, at the first operation (voting aside) in a later epoch, and further interactions within the same epoch distribute nothing. Of each distribution the owner receives at most the configured fee fraction, valued at the new share price and lower by at most rounding to whole shares, and the rest raises all stakes in proportion; attached deposits are never counted as income, and a distribution never fails for lack of income.",
  FI, "every sequence of rewards (including none), stray transfers, failed withdrawals and calls, every fee fraction from 0 to 1, and every choice of which call comes first in an epoch",
  "Tests cover a few rewards with one or two delegators; double counting appears only for particular first calls of an epoch (with attached deposits, withdrawals or returned transfers in flight).",
  [SI],
  [("last_epoch_height", "epoch of the last distribution", SP), ("last_total_balance", "account total already accounted for", SP), ("reward_fee_fraction", "owner's share of rewards", SP)],
  [("reward distribution before every operation", SI)],
  ["get_total_staked_balance", "get_account of owner and delegators", "get_reward_fee_fraction"])

p("C06", "Only the pool owner controls the pool, only delegators their funds",
  "Only the owner account can change the staking key or the reward fee, pause or resume staking, or vote on behalf of the pool, and the fee is always a valid fraction between 0 and 1. Nobody but a delegator can move or reduce that delegator's balances, the stake callback cannot be invoked from outside, and an initialised pool can never be re-initialised.",
  FI, "every caller identity, argument and order of calls, including calls arriving between a stake action and its callback",
  "Tests try one wrong caller for some methods; the guarantee is over every method, caller, argument and intermediate state.",
  [SP, SI],
  [("owner_id", "the pool owner", SP), ("reward_fee_fraction", "fee", SP), ("paused", "staking paused", SP)],
  [("owner assertion on owner methods", SI), ("callback predecessor check", SP), ("initialised-once check", SP)],
  ["get_owner_id", "get_staking_key", "get_reward_fee_fraction", "is_staking_paused"])

p("C07", "Network stake follows the pool's total staked balance",
  "While not paused, every pool operation that changes the stake or the staking key, or is the first one (voting aside) of an epoch, proposes to stake exactly the reported total staked balance with the current staking key; a paused pool never proposes a positive stake, and pausing proposes zero. If a stake action fails while tokens are locked the pool unstakes everything, and after kick-outs or failures the next such call restores the full stake, so that once faults stop the network stake equals the total staked balance.",
  FI, "every sequence of stake-changing calls, pauses, key changes, stake-action failures (minimum stake, too little liquid balance), kick-outs and delayed callbacks",
  "The mocked VM never executes stake actions or delivers callbacks, so tests never see a failed stake action or a callback that arrives after other calls or in another epoch.",
  [SP, SI],
  [("paused", "staking paused by owner", SP), ("stake_public_key", "validator key", SP), ("total_staked_balance", "what should be staked", SP)],
  [("restake promise with callback", SI), ("callback unstakes on failure", SP)],
  ["stake actions issued by the pool", "locked balance", "get_total_staked_balance"])

p("C08", "Pool account listing is complete and never stale",
  "At any time the paged account listing enumerates every account with a positive balance exactly once and no account without balance, for every page start and size; the reported number of accounts is the length of that list and each entry equals the single-account view. An account whose balances reach zero disappears, and reappears correctly if it deposits again.",
  ["histories", "inputs", "schedules", "fault_sequences"], "every history of accounts appearing, emptying and reappearing, every page start and size, interleaved with reward distributions crediting the owner",
  "Tests list a fixed set; removal reorders the underlying collection and only histories mixing removals, re-insertions and rewards exercise that.",
  [SP, SI],
  [("accounts", "iterable map of delegators", SP)],
  [("zero-balance accounts are removed on save", SI), ("paging over the key list", SP)],
  ["get_accounts", "get_number_of_accounts", "get_account"])

FP = "staking-pool-factory/src/lib.rs"
p("C10", "Pool factory whitelists exactly the pools it really created",
  "A pool-creation request through the factory ends in exactly one of two ways: the pool exists, initialised with the requested owner, key and fee and holding the full deposit, and is whitelisted (unless the whitelist contract refuses or fails that call); or it does not, the attached deposit goes back in full to the requester exactly once, the name is not whitelisted through this request and can be requested again. Whatever the order of concurrent, repeated or conflicting requests, one name is never created twice, the number of pools reported equals the pools created or still being created, and the factory's own tokens are never spent on requests.",
  FI, "every interleaving of creation requests (same and different names, valid and invalid parameters, low deposit, pre-existing accounts, little gas) with their creation and callback receipts, and failing whitelist calls",
  "Unit tests simulate a callback by hand with a mocked result; no test runs the creation receipt, its failure, the callback and a concurrent request for the same name together.",
  [FP],
  [("staking_pool_account_ids", "names taken", FP)],
  [("create+deploy+init batch with callback", FP), ("callback whitelists or refunds and frees the name", FP)],
  ["get_number_of_staking_pools_created", "whitelist is_whitelisted", "accounts and code created", "refunds to the requester"])

WP = "whitelist/src/lib.rs"
p("C11", "Whitelist changes only by the foundation or approved factories",
  "The whitelist behaves as two sets: only the foundation can add or remove factories and remove pools, and only the foundation or a factory that is whitelisted at that moment can add pools. Add and remove report truthfully whether they changed the set, queries always reflect the latest changes, invalid account names are refused, and no other caller, order or repetition of calls changes either set.",
  ["histories", "inputs", "schedules"], "every caller, every account name, every order of adds and removes of pools and factories, including a factory being removed while its pool creation is in flight",
  "Tests use one pool and one factory in fixed orders; the set semantics and authority must hold for every history and for calls racing with removal of a factory.",
  [WP],
  [("whitelist", "approved pools", WP), ("factory_whitelist", "approved factories", WP)],
  [("caller checks", WP), ("set insert/remove results", WP)],
  ["is_whitelisted", "is_factory_whitelisted", "return values"])

LL = "lockup/src/lib.rs"; LO = "lockup/src/owner.rs"; LF = "lockup/src/foundation.rs"; LC = "lockup/src/owner_callbacks.rs"; LFC = "lockup/src/foundation_callbacks.rs"; LG = "lockup/src/getters.rs"; LI = "lockup/src/internal.rs"
p("C20", "Locked and unvested tokens never leave the lockup",
  "Until they unlock and vest, the owner can never get locked or unvested tokens out of a lockup: after every transfer or other outflow at the owner's request, what the account still holds plus what sits in the selected staking pool is at least the amount then locked or unvested, a private vesting schedule counting once it is revealed (and the account keeps its storage reserve). No order of deposits, stakes, withdrawals, refreshes, transfers, pool selections, termination steps, failing pool calls or late callbacks can get around this, and nothing leaves while transfers are disabled.",
  FI, "every lockup/vesting/release configuration, clock value, and history of owner, foundation and outsider calls, with every order of delivery and failure of pool and whitelist calls and callbacks, and rewards or stray deposits",
  "Spec tests use a mock without promises, and the single simulation-free happy paths use hand-made callback results; the remembered pool deposit going out of step with the pool needs failing calls and callbacks at particular points.",
  ["lockup/src/owner.rs", "lockup/src/getters.rs", "lockup/src/internal.rs", "lockup/src/owner_callbacks.rs"],
  [("deposit_amount", "tokens believed to sit in the pool", "lockup/src/types.rs"), ("status", "busy flag around pool calls", "lockup/src/types.rs"), ("lockup_information", "amount and schedule", "lockup/src/types.rs")],
  [("liquid balance check on transfer", LO), ("locked amount computation", LG), ("callbacks adjusting remembered deposit", LC)],
  ["transfers leaving the lockup", "get_locked_amount", "get_liquid_owners_balance", "get_owners_balance", "pool balances"])

p("C21", "Unlock amounts follow the documented schedules at every instant",
  "At every time the reported locked, unvested, owner's and liquid amounts equal the documented schedule: nothing unlocks before the later of the lockup timestamp, the transfers-enabled time plus lockup duration, and the cliff; afterwards the locked amount is the larger of the linearly unreleased and the unvested part, net of tokens already withdrawn by termination, and everything is locked while transfers are disabled. As time advances the locked and unvested amounts never increase, and they reach zero at the end of the schedules. A lockup cannot be initialised with an explicit vesting schedule whose dates are out of order or span no time.",
  ["inputs", "configurations", "histories", "schedules"], "every configuration of lockup timestamp, durations, release, vesting (none, explicit, private hash), transfers enabled before or after, every amount and every sequence of clock jumps, including instants exactly at and around each boundary, before and after termination",
  "The spec tests check a dozen dates; boundaries, tiny or huge amounts, unusual combinations and the state after partial termination withdrawals are not sampled.",
  [LG, "lockup/src/types.rs"],
  [("lockup_information", "amount, durations, timestamp, transfers information, termination withdrawn tokens", "lockup/src/types.rs"), ("vesting_information", "vesting schedule, hash or termination state", "lockup/src/types.rs")],
  [("locked/unvested amount getters", LG)],
  ["get_locked_amount", "get_unvested_amount", "get_locked_vested_amount", "get_owners_balance", "get_liquid_owners_balance", "get_vesting_information"])

p("C22", "Foundation can always recover exactly the unvested tokens",
  "Only the foundation can terminate vesting, only with the true schedule if it was kept private, and at most once; the amount at stake is exactly what was unvested at that moment, and then no owner action, pending call, pool choice or pool failure can stop the foundation from unstaking, withdrawing and transferring it out (up to the storage reserve) once faults stop. The foundation can never take more than that, never without termination, and after completion the remaining tokens behave as if fully vested and the owner regains control.",
  FI, "every moment of termination relative to owner operations in flight, every pool state (staked, unstaked, locked, failing), every failure of termination's own pool calls and transfers, repeated and concurrent foundation calls",
  "Tests walk termination once with hand-fed callback results; failing pool calls, concurrent owner operations, partial withdrawals and deleted receivers are not covered.",
  [LF, LFC],
  [("vesting_information / termination status", "progress of termination", "lockup/src/types.rs"), ("termination_withdrawn_tokens", "already taken out", "lockup/src/types.rs")],
  [("termination state machine", LF), ("callbacks advancing or rolling back it", LFC)],
  ["get_termination_status", "get_terminated_unvested_balance", "get_terminated_unvested_balance_deficit", "transfers to the foundation's receiver"])

p("C23", "Lockup's record of its pool deposit stays right and never deadlocks",
  "Every owner operation on the staking pool ends, whether the pool call succeeds or fails, with the lockup idle again and ready for the next operation; the remembered pool deposit rises by exactly the deposited amount only when the deposit succeeded, falls by exactly the withdrawn amount (not below zero) only when the withdrawal succeeded, and becomes exactly the pool's reported balance on refresh. (Calls that only read the pool's books are taken to succeed, as they do on whitelisted pools.) Failed pool calls leave the lockup's tokens accounted for: nothing is lost from the account, and the owner's total as reported changes only by rewards.",
  FI, "every order and failure pattern of pool calls and callbacks, with owner operations attempted at every point in between, and every amount",
  "Callback results are hand-fed one at a time in tests; no test runs the real pool, its failures and its rewards against the callbacks.",
  [LO, LC],
  [("staking_information", "selected pool, busy status, remembered deposit", "lockup/src/types.rs")],
  [("busy flag set before and cleared in callbacks", LO), ("callbacks adjusting the remembered deposit", LC)],
  ["get_known_deposited_balance", "get_staking_pool_account_id", "owner operations accepted when nothing is in flight"])

p("C24", "Lockup funds reach only whitelisted pools, at the owner's command",
  "Only the owner can select or unselect a pool, move tokens to, from or within it, transfer tokens or trigger the transfers vote check; callbacks cannot be invoked from outside. Tokens are sent only to the currently selected pool, a pool can be selected only if the whitelist approves it at that time and only when none is selected, it can be unselected only when no deposit is remembered, at most one pool operation is in progress at any time, and none is accepted while vesting is being terminated.",
  FI, "every caller, every order of calls arriving between a pool call and its callback, whitelist answers (yes, no, failing), and termination at any point",
  "Tests check single wrong callers; exclusion and selection must hold at every intermediate state with receipts in flight.",
  [LO, LI, LC],
  [("staking_information", "selected pool and busy status", "lockup/src/types.rs"), ("owner_account_id", "owner", LL)],
  [("owner assertion", LI), ("idle assertion", LI), ("no-termination assertion", LI), ("whitelist callback", LC)],
  ["get_staking_pool_account_id", "calls and transfers leaving the lockup"])

p("C25", "Transfers are enabled only by the voting result",
  "A lockup with disabled transfers becomes transferable only after the owner's check finds that the configured voting contract has reached a result, and then uses exactly that result's timestamp; a missing result or a failing voting contract leaves transfers disabled and the lockup usable. Once enabled, transfers are never disabled again and the timestamp never changes.",
  FI, "every timing of the vote check against pool operations, voting outcomes (none, reached, failing contract), repeated checks and clock positions",
  "One unit test feeds one callback result; failure and interleaving with other operations are not sampled.",
  [LO, LC, LG],
  [("transfers_information", "enabled timestamp or voting contract", "lockup/src/types.rs")],
  [("check vote call and callback", LC)],
  ["are_transfers_enabled", "get_locked_amount", "transfer"])

p("C26", "Full access to a lockup only when everything is released",
  "The owner can add a full access key to the lockup only when transfers are enabled, no tokens are locked or unvested, no vesting termination is in progress and no pool operation is in flight; then it succeeds. No other call by anyone ever adds a key to the lockup account, deletes it or replaces its code.",
  FI, "every configuration, clock position, vesting and termination state and in-flight operation at which the key is requested",
  "Tests try two moments; the condition combines five independent conditions over time and concurrent operations.",
  [LO],
  [("vesting_information", "must be gone or over", "lockup/src/types.rs")],
  [("assertions before adding the key", LO)],
  ["access keys of the lockup account", "add_full_access_key result"])

p("C27", "The owner can eventually get every released token back",
  "Whatever happened before (failed or repeated pool calls, kick-outs, epoch switches between receipts, termination), once faults stop and the tokens are unlocked and vested, the owner can within a bounded number of calls and epochs unstake and withdraw everything from the pool, transfer out all but the storage reserve and unselect the pool, and receives at least the lockup's tokens less what the foundation took. Rewards earned in the pool can be withdrawn before unlock, unless termination is in progress.",
  FI, "every history and fault sequence followed by a fault-free recovery phase",
  "Liveness after arbitrary failures needs whole-system histories with the real pool, epochs and promises, which the mocked tests do not run.",
  [LO, LC, SP],
  [("staking_information", "busy status and remembered deposit", "lockup/src/types.rs")],
  [("refresh, withdraw and unselect operations", LO)],
  ["tokens reaching the owner's account"])

p("C28", "The documented gas is enough for every lockup operation",
  "A lockup operation called by its owner or the foundation with the amount of gas its documentation asks for (25 to 175 Tgas depending on the method) never runs out of gas, neither in the lockup nor in the staking pool, whitelist or voting contract it calls nor in any callback, so the operation always ends in one of its documented outcomes.",
  FI, "every operation in every state of the lockup and of a real staking pool (ping due or not, restake pending or not, terminated or not), with failing callees and epoch switches between the receipts",
  "Unit tests run with unlimited gas and mocked promises; gas is split between call, callee and nested callbacks, and which of them run depends on history.",
  [LO, LC, "lockup/src/foundation.rs", "lockup/src/gas.rs"],
  [("gas constants", "how the attached gas is divided", "lockup/src/gas.rs")],
  [("every promise with its callback", LO)],
  ["outcome of every receipt an operation causes"])

LFa = "lockup-factory/src/lib.rs"
p("C30", "Lockup factory creates exactly what was asked or refunds in full",
  "Each creation request yields either a lockup account at the address derived from the owner's name, funded with the attached deposit and initialised with exactly the requested owner, schedule and durations (foundation set only together with a vesting schedule, and the given or default whitelist), or, if creation fails, a full refund of the attached deposit to the requester, exactly once. Deposits below the minimum are refused, an existing lockup is never overwritten or topped up by a second request, and the factory's own balance is never spent.",
  FI, "every parameter combination, requester, repeated and concurrent requests for the same owner, low gas and invalid parameters",
  "Unit tests inspect the promise or hand-feed the callback; they never run creation, its failure and refund against a real account.",
  [LFa],
  [("whitelist_account_id / foundation_account_id", "defaults passed on", LFa)],
  [("create, deploy, init batch with refund callback", LFa)],
  ["lockup views of the created account", "account balances", "return value"])

VP = "voting/src/lib.rs"
p("C40", "A vote passes only with more than two thirds of current stake",
  "The result is set exactly when, at an interaction, the current stake of validators whose vote stands exceeds two thirds of the current total stake, with stake counted once per validator and refreshed in every new epoch; it records that moment's time. Once set it never changes and no vote or refresh is accepted; before that each validator's vote counts at most once, can be withdrawn, and accounts without stake cannot vote, while the reported votes and total always equal the standing votes at the stakes last refreshed.",
  FI, "every history of votes, withdrawals and pings over epochs with changing stakes (rise, fall, kick-out, return), including totals exactly at two thirds and huge stakes",
  "Tests use equal stakes and few epochs; the threshold, double counting after stake changes and stale stakes need histories with changing stakes.",
  [VP],
  [("votes", "standing votes with stake", VP), ("total_voted_stake", "their sum", VP), ("last_epoch_height", "epoch of last refresh", VP), ("result", "time of passing", VP)],
  [("stake refresh on epoch change", VP), ("strict two-thirds check", VP)],
  ["get_result", "get_total_voted_stake", "get_votes"])

M2 = "multisig2/src/lib.rs"; M1 = "multisig/src/lib.rs"
p("C41", "Pools vote with their stake, and a passed vote frees the lockups",
  "Only its owner can make a staking pool vote, or withdraw its vote, at a voting contract; each such call reaches the contract as the pool's own vote and counts with exactly the pool's network stake, including what delegators and lockups staked through it. A pool made by the pool factory can be selected and staked in by lockups as soon as it is listed, and only then. A lockup whose transfers depend on the poll becomes transferable only by its owner's check after the poll has passed, with exactly the time the poll recorded, and its schedule runs from there. Once all staked tokens vote the poll passes, every such lockup can be freed, and its owner gets everything out after the schedule; meanwhile no locked token leaves lockups and pools.",
  FI, "every interleaving of pool creation, delegation, votes, withdrawn votes, epoch switches, kick-outs, pauses and lockup operations across all the contracts, with failing callees and low gas",
  "Each contract is tested alone against mocked counterparts; that the interfaces, gas and stake accounting of five contracts fit together over epochs is tested nowhere.",
  ["voting/src/lib.rs", SP, LO, LC, "staking-pool-factory/src/lib.rs", "whitelist/src/lib.rs"],
  [("votes, result", "the poll", "voting/src/lib.rs"), ("transfers_information", "poll or time of the result", "lockup/src/types.rs")],
  [("vote", SP), ("vote", "voting/src/lib.rs"), ("check_transfers_vote and its callback", LO)],
  ["get_votes, get_result", "are_transfers_enabled, get_locked_amount", "transfers out of lockups"])

p("C50", "Multisig v2 executes a request once, only after k members confirmed",
  "The multisig (v2) issues a request's actions exactly as submitted, at most once, and only in the call by which the number of different members who confirmed that very request (each a member when confirming) reaches the required number in force; nothing else makes the account act. An executed, deleted or cancelled request is gone and can never be confirmed or executed again, and a failure of the executed actions does not bring it back.",
  FI, "every member set, threshold, interleaving of submissions, confirmations, deletions, membership and threshold changes from accounts and access keys, and failing or failing-later actions",
  "Tests confirm single requests in a fixed order and never run the resulting promise; changes of members and threshold between confirmations are not sampled.",
  [M2],
  [("requests / confirmations", "open requests and who confirmed", M2), ("num_confirmations", "required number", M2)],
  [("confirmation set and removal before execution", M2)],
  ["actions issued by the account", "list_request_ids", "get_request", "get_confirmations"])
p("C51", "Multisig v2 accepts only members and bounds their open requests",
  "Only current members (an account by calling, an access key by signing for the multisig account itself) can add, confirm or delete requests; each member can have at most the allowed number of open requests, the reported number per member equals its open requests, and executing, deleting or cancelling requests frees the slots. A request can be deleted only more than fifteen minutes after it was added, request numbers are never reused, and a refused call changes nothing.",
  FI, "every caller (member accounts, member keys, former members, outsiders using other accounts' keys), order, clock position around the cooldown, and limit changes",
  "Tests check the limit and cooldown at one point each with one member.",
  [M2],
  [("num_requests_pk", "open requests per member", M2), ("active_requests_limit", "limit", M2), ("request_nonce", "next number", M2)],
  [("member check", M2), ("limit check", M2), ("cooldown check", M2)],
  ["get_num_requests_per_member", "list_request_ids", "get_request_nonce"])
p("C52", "Multisig v2 membership, keys and threshold change only by consensus",
  "Members, access keys on the multisig account, the threshold and the request limit change only through executed requests addressed to the multisig itself (threshold and limit changes only as a single action) or at initialisation; removing a member never leaves fewer members than the threshold, cancels that member's open requests and revokes its key. Each key member has on the account exactly an access key that can call the multisig's own request methods and nothing else (unless the network refuses the executed actions).",
  FI, "every sequence of requests mixing membership, key, threshold and limit changes with other actions and receivers, in every confirmation order",
  "Tests cover one add and one remove; mixed batches, wrong receivers and later effects on other members' requests are not sampled.",
  [M2],
  [("members", "current members", M2), ("num_confirmations", "threshold", M2)],
  [("self-request and single-action checks", M2), ("add/delete member with key actions", M2)],
  ["get_members", "get_num_confirmations", "access keys of the account"])
p("C53", "Multisig v1 executes a request once, only after k keys confirmed",
  "The key-based multisig (v1) issues a request's actions exactly as submitted, at most once, and only in the call by which the number of different access keys that confirmed that very request reaches the required number in force; it accepts calls only signed for the account itself. Threshold and limit changes take effect only as a single action of an executed request addressed to itself, keys are added or deleted only by requests addressed to itself, and an executed or deleted request can never run again.",
  FI, "every interleaving of submissions, confirmations and deletions by several keys, with threshold, limit and key changes and failing actions in between",
  "Tests use fixed orders in a mock that never executes the promises.",
  [M1],
  [("requests / confirmations", "open requests and confirmations", M1), ("num_confirmations", "threshold", M1)],
  [("confirmation set and removal before execution", M1), ("self-request checks", M1)],
  ["actions issued by the account", "list_request_ids", "get_confirmations", "get_num_confirmations"])
p("C54", "Multisig v1 bounds and cleans up open requests per key",
  "Each key can have at most the allowed number of open requests, and the reported number per key always equals its open requests: executing or deleting a request frees its slot, and deleting a key cancels all requests that key had added together with their confirmations. A request can be deleted only more than fifteen minutes after it was added, request numbers are never reused, and a refused call changes nothing.",
  FI, "every interleaving over several keys, clock positions around the cooldown, limit changes and key deletions",
  "Tests check the limit and cooldown at one point each.",
  [M1],
  [("num_requests_pk", "open requests per key", M1), ("active_requests_limit", "limit", M1)],
  [("limit, cooldown and cleanup", M1)],
  ["get_num_requests_pk", "list_request_ids", "get_request_nonce"])
MF = "multisig-factory/src/lib.rs"
p("C55", "Multisig factory creates the requested multisig or refunds",
  "A creation request through the multisig factory yields a new multisig account under the factory's name with exactly the requested members, threshold and access keys and holding exactly the attached deposit; if it cannot be created, the deposit returns to the requester and nothing is created. An existing account is never altered by a later request for its name, and the factory's own balance never pays.",
  FI, "every member list, threshold, name, deposit and gas, repeated and concurrent requests",
  "The only test inspects nothing but that the call does not panic.",
  [MF, M2],
  [],
  [("create, deploy, transfer, init batch", MF)],
  ["account created and its views", "balances of factory and requester"])
WN = "w-near/src/lib.rs"
p("C60", "Wrapped NEAR is always fully backed",
  "After every executed receipt the reported total supply equals the sum of all account balances: wrapping mints exactly the attached NEAR (less the one-time storage deposit of a new account), unwrapping burns exactly the requested amount and sends exactly that NEAR to the caller, transfers conserve the supply, and the contract's NEAR always covers supply plus storage deposits. No failing, repeated or concurrent call mints, loses or frees tokens.",
  FI, "every history of wraps, unwraps, transfers, transfer-calls, registrations and unregistrations by any accounts and amounts, with failing receivers and recipients deleted while payments are in flight",
  "No behavioural unit tests exist for wrap/unwrap; backing must hold over every history and in-flight state.",
  ["w-near/src/lib.rs", "w-near/src/w_near.rs"],
  [("token ledger", "balances and total supply", WN)],
  [("mint on deposit, burn on withdraw", "w-near/src/w_near.rs")],
  ["ft_total_supply", "ft_balance_of", "contract account balance", "transfers to the caller"])
p("C61", "Transfer-call settles exactly once against the receiver's answer",
  "A token transfer moves exactly the asked amount between two registered accounts, only from the caller (with one attached yocto), or fails without effect. A transfer-call gives the receiver the full amount at once and finally returns to the sender exactly the part the receiver reported unused (everything if the receiver fails or answers garbage), limited to the amount sent and to what the receiver still holds (and taken out of supply if the sender has unregistered); it settles exactly once and reports the amount used.",
  FI, "every receiver answer (value, too large, garbage, panic, promise) and every interleaving of other transfers, withdrawals and unregistrations between the transfer, the receiver's call and the settlement",
  "Not covered by any test; depends on what interleaves between three receipts.",
  ["w-near/src/lib.rs"],
  [("token ledger", "balances", WN)],
  [("transfer-call with settlement callback", WN)],
  ["ft_balance_of", "ft_transfer_call result"])
p("C62", "Wrapped NEAR storage deposits are charged and returned once",
  "An account can hold tokens only while registered; registration keeps exactly the minimum storage deposit and returns any excess, registering again returns the full attachment, and unregistering returns the deposit once, refusing to drop a positive balance unless forced, in which case the supply shrinks by exactly that balance. Nobody can register, unregister or withdraw storage to the detriment of another account's balance.",
  FI, "every history of registration, wrap-registration, unregistration (forced or not) and transfers by any accounts, with deleted recipients",
  "Not covered by any test of the repository.",
  ["w-near/src/lib.rs", "w-near/src/w_near.rs", "w-near/src/legacy_storage.rs"],
  [("token ledger", "registered accounts", WN)],
  [("storage management", WN)],
  ["storage_balance_of", "storage_balance_bounds", "contract account balance"])
p("C63", "Deploying the current wrapped NEAR over the old release keeps every balance",
  "When the current contract is deployed over a running account of the old release kept in the repository, at any moment, transfer-calls in flight included, it takes over with no further step: every balance, every registration and the total supply stay exactly as they were, transfer-calls begun before settle by the same rules after, nothing becomes unbacked, and from then on accounts registered before and after are served alike, with the same storage deposit.",
  FI, "every history of wrapping, transfers, transfer-calls and registration on the old release, the code replaced between any two receipts, and every history after it",
  "The two upgrade tests make one or two transfers on an idle contract; no transfer-call is under way and nobody leaves afterwards.",
  ["w-near/src/lib.rs", "w-near/src/w_near.rs", "w-near/src/legacy_storage.rs"],
  [("contract state", "token ledger, read back by the new code", WN)],
  [("state layout, settlement callback", WN), ("older name of the storage minimum", "w-near/src/legacy_storage.rs")],
  ["ft_balance_of", "ft_total_supply", "storage_balance_of", "storage_minimum_balance", "contract account balance"])
p("C70", "State tools change exactly the named entries",
  "Deployed over any account's existing state, the state clean-up and replacement contracts remove or overwrite exactly the storage entries named in the call, in order, and no others; each build offers only its own operations; and a call with any malformed entry, too little gas or too little balance for the new storage changes nothing.",
  ["inputs", "fault_sequences", "histories"], "every list of keys and values, valid or malformed, over every state left by another contract, in every order of calls and code replacements, with gas or storage balance running out anywhere",
  "There is one sandbox test (not runnable offline) with a few generated key-value maps on an otherwise empty account, no malformed entry, no shortage and no state of another contract.",
  ["state-manipulation/src/lib.rs"],
  [], [("key removal / write", "state-manipulation/src/lib.rs")],
  ["contract storage"])
p("C71", "Every contract is initialised once, validly and as asked",
  "Until its initialisation succeeds, every contract that has one refuses every other state-changing call without effect; initialisation accepts any valid arguments and refuses, without effect, invalid ones (impossible account names, keys, fractions, durations or vesting schedules, a vesting schedule without foundation or a foundation without schedule, a threshold above the number of members). What the contract then reports is exactly what was asked, and no later initialisation by anyone, with any arguments, succeeds or changes anything, however its code is redeployed, unless the account was deleted in between.",
  ["inputs", "histories", "schedules", "fault_sequences"], "all arguments, valid or not, of every contract's initialisation; every order of initialisations, early calls, later calls, redeployments and account deletions, delivered in any order, with gas or storage balance running out",
  "Tests initialise each contract with a handful of arguments, and few try a second initialisation or an early call.",
  ["staking-pool/src/lib.rs", "staking-pool-factory/src/lib.rs", "lockup/src/lib.rs", "lockup-factory/src/lib.rs", "voting/src/lib.rs", "whitelist/src/lib.rs", "multisig/src/lib.rs", "multisig2/src/lib.rs", "w-near/src/lib.rs"],
  [], [("`new` functions", "lib.rs of each contract"), ("argument validation", "lockup/src/types.rs, staking-pool/src/lib.rs (RewardFeeFraction)")],
  ["`new` and the getters of every contract"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x, sch)
print(len(P))
