"""The planted changes: see gen_seeded.py."""

COMMON = r'''
#![allow(dead_code, unused_imports, unused_mut, unused_variables)]
use std::collections::HashMap;
use std::convert::{TryFrom, TryInto};
use std::panic::{catch_unwind, AssertUnwindSafe};

const N: u128 = 1_000_000_000_000_000_000_000_000;

fn fails<R>(f: impl FnOnce() -> R) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}
'''

# near-sdk 2 and 3: the same mocked blockchain, but for one argument.
def old_sdk(extra):
    return COMMON + r'''
use near_sdk::{env, MockedBlockchain, PromiseResult, VMContext};

fn ctx(me: &str, pred: &str) -> VMContext {
    VMContext {
        current_account_id: me.to_string(),
        signer_account_id: pred.to_string(),
        signer_account_pk: vec![0, 1, 2],
        predecessor_account_id: pred.to_string(),
        input: vec![],
        block_index: 0,
        block_timestamp: 0,
        epoch_height: 0,
        account_balance: 0,
        account_locked_balance: 0,
        storage_usage: 1_000_000,
        attached_deposit: 0,
        prepaid_gas: 1_000_000_000_000_000_000,
        random_seed: vec![0, 1, 2],
        is_view: false,
        output_data_receivers: vec![],
    }
}

fn enter_with(c: VMContext, results: Vec<PromiseResult>, validators: HashMap<String, u128>) {
    let storage = match env::take_blockchain_interface() {
        Some(mut b) => b.as_mut_mocked_blockchain().unwrap().take_storage(),
        None => Default::default(),
    };
    env::set_blockchain_interface(Box::new(MockedBlockchain::new(
        c,
        Default::default(),
        Default::default(),
        results,
        storage,
        validators,''' + extra + r'''
    )));
}

fn enter(c: VMContext) {
    enter_with(c, vec![], HashMap::new())
}

/// The receipts the last call created, as text.
fn receipts() -> String {
    let b = env::take_blockchain_interface().unwrap();
    let s = near_sdk::serde_json::to_string(b.as_mocked_blockchain().unwrap().created_receipts()).unwrap();
    env::set_blockchain_interface(b);
    s
}
'''

SDK2 = old_sdk("")
SDK3 = old_sdk("\n        None,")

POOL = SDK2 + r'''
use near_sdk::json_types::{Base58PublicKey, U128};
use staking_pool::{RewardFeeFraction, StakingContract};

/// A pool on a small simulated account: the tests book what the network would.
struct Pool {
    c: StakingContract,
    epoch: u64,
    liquid: u128,
    locked: u128,
}

fn key() -> Base58PublicKey {
    Base58PublicKey::try_from("KuTCtARNzxZQ3YvXDeLjx83FDqxv2SdQTSbiq876zR7".to_string()).unwrap()
}

fn pool(fee: u32) -> Pool {
    let mut c = ctx("pool", "owner");
    c.account_balance = 30 * N;
    enter(c);
    let c = StakingContract::new("owner".to_string(), key(), RewardFeeFraction { numerator: fee, denominator: 100 });
    Pool { c, epoch: 0, liquid: 30 * N, locked: 0 }
}

impl Pool {
    fn ctx(&self, who: &str, deposit: u128) -> VMContext {
        let mut c = ctx("pool", who);
        c.attached_deposit = deposit;
        c.account_balance = self.liquid; // the mock adds the attached deposit
        c.account_locked_balance = self.locked;
        c.epoch_height = self.epoch;
        c
    }
    fn by(&mut self, who: &str, deposit: u128) -> &mut StakingContract {
        enter(self.ctx(who, deposit));
        self.liquid += deposit;
        &mut self.c
    }
    fn view(&mut self) -> &StakingContract {
        let mut c = self.ctx("anyone", 0);
        c.is_view = true;
        enter(c);
        &self.c
    }
    fn unstaked(&mut self, who: &str) -> u128 {
        self.view().get_account_unstaked_balance(who.to_string()).0
    }
    fn staked(&mut self, who: &str) -> u128 {
        self.view().get_account_staked_balance(who.to_string()).0
    }
    fn total(&mut self) -> u128 {
        self.view().get_total_staked_balance().0
    }
}
'''

POOLFAC = SDK2 + r'''
use near_sdk::json_types::Base58PublicKey;
use staking_pool_factory::{RewardFeeFraction, StakingPoolFactory};

const ME: &str = "factory";
const DEP: u128 = 40 * N;

fn factory() -> StakingPoolFactory {
    enter(ctx(ME, "near"));
    StakingPoolFactory::new("whitelist".to_string())
}
fn create(f: &mut StakingPoolFactory, c: VMContext, name: &str) -> bool {
    let mut c = c;
    c.attached_deposit = DEP;
    c.account_balance = 100 * N;
    enter(c);
    !fails(|| {
        f.create_staking_pool(
            name.to_string(),
            "poolowner".to_string(),
            Base58PublicKey::try_from("KuTCtARNzxZQ3YvXDeLjx83FDqxv2SdQTSbiq876zR7".to_string()).unwrap(),
            RewardFeeFraction { numerator: 10, denominator: 100 },
        );
    })
}
fn callback(f: &mut StakingPoolFactory, name: &str, payer: &str, ok: bool) -> String {
    let mut c = ctx(ME, ME);
    c.account_balance = 100 * N;
    enter_with(c, vec![if ok { PromiseResult::Successful(vec![]) } else { PromiseResult::Failed }], HashMap::new());
    { f.on_staking_pool_create(format!("{}.{}", name, ME), DEP.into(), payer.to_string()); }
    receipts()
}
fn count(f: &StakingPoolFactory) -> u64 {
    let mut c = ctx(ME, "anyone");
    c.is_view = true;
    enter(c);
    f.get_number_of_staking_pools_created()
}
'''

WHITELIST = SDK2 + r'''
use whitelist::WhitelistContract;
fn new() -> WhitelistContract {
    enter(ctx("whitelist", "near"));
    WhitelistContract::new("near".to_string())
}
fn by(who: &str) {
    enter(ctx("whitelist", who));
}
'''

VOTING = SDK2 + r'''
use voting_contract::VotingContract;
fn at(who: &str, epoch: u64, time: u64, stakes: &[(&str, u128)]) {
    let mut c = ctx("voting", who);
    c.epoch_height = epoch;
    c.block_timestamp = time;
    enter_with(c, vec![], stakes.iter().map(|(a, s)| (a.to_string(), *s)).collect());
}
'''

MSIG1 = SDK2 + r'''
use near_sdk::serde_json::json;
use multisig::{MultiSigContract, MultiSigRequest};
const MIN: u64 = 60_000_000_000;

fn key(i: u8) -> Vec<u8> {
    let mut k = vec![0u8];
    k.extend(vec![i; 32]);
    k
}
fn key58(i: u8) -> near_sdk::json_types::Base58PublicKey {
    near_sdk::json_types::Base58PublicKey::try_from(key(i)).unwrap()
}
fn by(k: u8, time: u64) {
    let mut c = ctx("multi", "multi");
    c.signer_account_pk = key(k);
    c.block_timestamp = time;
    c.account_balance = 1000 * N;
    enter(c);
}
fn req(receiver: &str, actions: near_sdk::serde_json::Value) -> MultiSigRequest {
    near_sdk::serde_json::from_value(json!({"receiver_id": receiver, "actions": actions})).unwrap()
}
fn transfer() -> MultiSigRequest {
    req("bob", json!([{"type": "Transfer", "amount": "777"}]))
}
'''

MSIG2 = COMMON + r'''
use near_sdk::serde_json::{self, json};
use near_sdk::test_utils::{get_created_receipts, VMContextBuilder};
use near_sdk::{testing_env, AccountId, PublicKey};
use multisig2::{MultiSigContract, MultiSigRequest, MultisigMember};
const MIN: u64 = 60_000_000_000;

fn id(s: &str) -> AccountId {
    AccountId::try_from(s.to_string()).unwrap()
}
fn key(i: u8) -> PublicKey {
    let mut k = vec![0u8];
    k.extend(vec![i; 32]);
    PublicKey::try_from(k).unwrap()
}
fn by_key(who: &str, k: u8, time: u64) {
    testing_env!(VMContextBuilder::new()
        .current_account_id(id("multi"))
        .predecessor_account_id(id(who))
        .signer_account_id(id(who))
        .signer_account_pk(key(k))
        .block_timestamp(time)
        .build());
}
fn by(who: &str, time: u64) {
    by_key(who, 77, time)
}
fn member(who: &str) -> MultisigMember {
    MultisigMember::Account { account_id: id(who) }
}
fn key_member(k: u8) -> MultisigMember {
    MultisigMember::AccessKey { public_key: key(k) }
}
fn new(members: Vec<MultisigMember>, k: u32) -> MultiSigContract {
    by("multi", 0);
    MultiSigContract::new(members, k)
}
fn req(receiver: &str, actions: serde_json::Value) -> MultiSigRequest {
    serde_json::from_value(json!({"receiver_id": receiver, "actions": actions})).unwrap()
}
fn transfer() -> MultiSigRequest {
    req("bob", json!([{"type": "Transfer", "amount": "777"}]))
}
fn sent() -> bool {
    format!("{:?}", get_created_receipts()).contains("777")
}
'''

MSIGFAC = SDK2 + r'''
use multisig_factory::{MultisigFactory, MultisigMember};
fn create(c: VMContext, k: u64) -> String {
    enter(c);
    let mut f = MultisigFactory::default();
    {
        f.create(
            "multi".to_string(),
            vec![MultisigMember::Account { account_id: "alice".to_string() }, MultisigMember::Account { account_id: "bob".to_string() }],
            k,
        );
    }
    let s = receipts();
    // Leave the code out of the text.
    let (a, rest) = s.split_at(s.find("\"code\"").unwrap());
    format!("{}{}", a, &rest[rest.find(']').unwrap()..])
}
'''

WNEAR = SDK3 + r'''
use near_sdk::json_types::U128;
use near_contract_standards::fungible_token::core::FungibleTokenCore;
use near_contract_standards::fungible_token::resolver::FungibleTokenResolver;
use near_contract_standards::storage_management::StorageManagement;
use w_near::Contract;

fn by(who: &str, deposit: u128) {
    let mut c = ctx("wnear", who);
    c.attached_deposit = deposit;
    c.account_balance = 1000 * N;
    enter(c);
}
fn new() -> Contract {
    by("root", 0);
    Contract::new()
}
fn valid(s: &str) -> near_sdk::json_types::ValidAccountId {
    s.to_string().try_into().unwrap()
}
'''

LOCKUP = SDK3 + r'''
use lockup_contract::*;
use near_sdk::json_types::{Base58PublicKey, U128, U64};

const TOTAL: u128 = 1000 * N;
const DAY: u64 = 86_400_000_000_000;
const T0: u64 = 1_600_000_000_000_000_000;

struct L {
    c: LockupContract,
    now: u64,
    balance: u128,
}
fn enabled(t: u64) -> TransfersInformation {
    TransfersInformation::TransfersEnabled { transfers_timestamp: t.into() }
}
fn disabled() -> TransfersInformation {
    TransfersInformation::TransfersDisabled { transfer_poll_account_id: "poll".to_string() }
}
fn schedule(start: u64, cliff: u64, end: u64) -> VestingSchedule {
    VestingSchedule { start_timestamp: start.into(), cliff_timestamp: cliff.into(), end_timestamp: end.into() }
}
fn new(
    duration: u64,
    timestamp: Option<u64>,
    transfers: TransfersInformation,
    vesting: Option<VestingSchedule>,
    release: Option<u64>,
) -> L {
    let mut c = ctx("lockup", "factory");
    c.account_balance = TOTAL;
    c.block_timestamp = T0;
    enter(c);
    let foundation = vesting.as_ref().map(|_| "near".to_string());
    let c = LockupContract::new(
        "owner".to_string(),
        duration.into(),
        timestamp.map(|t| t.into()),
        transfers,
        vesting.map(VestingScheduleOrHash::VestingSchedule),
        release.map(|t| t.into()),
        "whitelist".to_string(),
        foundation,
    );
    L { c, now: T0, balance: TOTAL }
}
impl L {
    fn by(&mut self, who: &str) -> &mut LockupContract {
        self.by_with(who, vec![])
    }
    fn by_with(&mut self, who: &str, results: Vec<PromiseResult>) -> &mut LockupContract {
        let mut c = ctx("lockup", who);
        c.account_balance = self.balance;
        c.block_timestamp = self.now;
        enter_with(c, results, HashMap::new());
        &mut self.c
    }
    fn cb(&mut self, ok: bool) -> &mut LockupContract {
        self.by_with("lockup", vec![if ok { PromiseResult::Successful(vec![]) } else { PromiseResult::Failed }])
    }
    fn view(&mut self) -> &LockupContract {
        let mut c = ctx("lockup", "anyone");
        c.account_balance = self.balance;
        c.block_timestamp = self.now;
        c.is_view = true;
        enter(c);
        &self.c
    }
    fn select(&mut self, pool: &str) {
        self.by("owner").select_staking_pool(pool.to_string());
        self.cb(true).on_whitelist_is_whitelisted(true, pool.to_string());
    }
    fn known(&mut self) -> u128 {
        self.view().get_known_deposited_balance().0
    }
    /// Deposit and stake in the selected pool, successfully.
    fn stake(&mut self, amount: u128) {
        self.by("owner").deposit_and_stake(amount.into());
        self.balance -= amount;
        self.cb(true).on_staking_pool_deposit_and_stake(amount.into());
    }
}
'''

LOCKFAC = SDK3 + r'''
use near_sdk::json_types::ValidAccountId;
use lockup_factory::*;

const ME: &str = "lockup";
fn valid(s: &str) -> ValidAccountId {
    s.to_string().try_into().unwrap()
}
fn factory() -> LockupFactory {
    enter(ctx(ME, "near"));
    LockupFactory::new(valid("whitelist"), valid("foundation"))
}
fn strip(s: String) -> String {
    let (a, rest) = s.split_at(s.find("\"code\"").unwrap());
    format!("{}{}", a, &rest[rest.find(']').unwrap()..])
}
'''

PREAMBLE_STATE = r'''
#![allow(dead_code)]
use std::cell::RefCell;
use std::collections::BTreeMap;

// A blockchain for one call: its input, and the storage.
#[derive(Default)]
struct Host {
    input: Vec<u8>,
    regs: BTreeMap<u64, Vec<u8>>,
    store: BTreeMap<Vec<u8>, Vec<u8>>,
}
thread_local!(static HOST: RefCell<Host> = RefCell::new(Host::default()));

fn host<R>(f: impl FnOnce(&mut Host) -> R) -> R {
    HOST.with(|h| f(&mut h.borrow_mut()))
}
unsafe fn bytes(len: u64, ptr: u64) -> Vec<u8> {
    if ptr == u64::MAX {
        return vec![];
    }
    std::slice::from_raw_parts(ptr as *const u8, len as usize).to_vec()
}
#[no_mangle]
unsafe extern "C" fn input(register_id: u64) {
    host(|h| {
        let x = h.input.clone();
        h.regs.insert(register_id, x);
    })
}
#[no_mangle]
unsafe extern "C" fn register_len(register_id: u64) -> u64 {
    host(|h| h.regs.get(&register_id).map_or(u64::MAX, |x| x.len() as u64))
}
#[no_mangle]
unsafe extern "C" fn read_register(register_id: u64, ptr: u64) {
    host(|h| {
        let x = &h.regs[&register_id];
        std::ptr::copy_nonoverlapping(x.as_ptr(), ptr as *mut u8, x.len());
    })
}
#[no_mangle]
unsafe extern "C" fn storage_read(key_len: u64, key_ptr: u64, register_id: u64) -> u64 {
    let k = bytes(key_len, key_ptr);
    host(|h| match h.store.get(&k).cloned() {
        Some(x) => {
            h.regs.insert(register_id, x);
            1
        }
        None => 0,
    })
}
#[no_mangle]
unsafe extern "C" fn storage_has_key(key_len: u64, key_ptr: u64) -> u64 {
    let k = bytes(key_len, key_ptr);
    host(|h| h.store.contains_key(&k) as u64)
}
#[no_mangle]
unsafe extern "C" fn storage_write(key_len: u64, key_ptr: u64, value_len: u64, value_ptr: u64, register_id: u64) -> u64 {
    let (k, v) = (bytes(key_len, key_ptr), bytes(value_len, value_ptr));
    host(|h| match h.store.insert(k, v) {
        Some(x) => {
            h.regs.insert(register_id, x);
            1
        }
        None => 0,
    })
}
#[no_mangle]
unsafe extern "C" fn storage_remove(key_len: u64, key_ptr: u64, register_id: u64) -> u64 {
    let k = bytes(key_len, key_ptr);
    host(|h| match h.store.remove(&k) {
        Some(x) => {
            h.regs.insert(register_id, x);
            1
        }
        None => 0,
    })
}
/// Calls with this input; a failed call leaves the storage as it was.
fn call(f: fn(), input: &str) -> bool {
    let before = host(|h| {
        h.regs.clear();
        h.input = input.as_bytes().to_vec();
        h.store.clone()
    });
    let ok = std::panic::catch_unwind(f).is_ok();
    if !ok {
        host(|h| h.store = before);
    }
    ok
}
fn put(k: &[u8], v: &[u8]) {
    host(|h| h.store.insert(k.to_vec(), v.to_vec()));
}
fn get(k: &[u8]) -> Option<Vec<u8>> {
    host(|h| h.store.get(k).cloned())
}
use state_manipulation::{clean, replace};
'''
PREAMBLE = {
    "state-manipulation": PREAMBLE_STATE,
    "staking-pool": POOL, "staking-pool-factory": POOLFAC, "whitelist": WHITELIST, "voting": VOTING,
    "multisig": MSIG1, "multisig2": MSIG2, "multisig-factory": MSIGFAC, "w-near": WNEAR,
    "lockup": LOCKUP, "lockup-factory": LOCKFAC,
}

BUGS = []

def bug(id, property, crate, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, crate=crate, needs=needs, what=what, edits=edits, demo=demo))

# ---------------------------------------------------------------------------------- staking pool
I = "staking-pool/src/internal.rs"
P = "staking-pool/src/lib.rs"

bug("C03-sweep-dust", "C03", "staking-pool",
    "a withdrawal that leaves less than a millinear unstaked",
    "A withdrawal also pays out a small remainder that was not asked for, and only the requested amount is taken off "
    "the tracked total.",
    [(I, """        account.unstaked -= amount;
        self.internal_save_account(&account_id, &account);

        env::log(
            format!(
                "@{} withdrawing {}.""",
      """        account.unstaked -= amount;
        // Don't leave dust behind.
        let mut payout = amount;
        if account.unstaked < MIN_REMAINDER {
            payout += account.unstaked;
            account.unstaked = 0;
        }
        self.internal_save_account(&account_id, &account);

        env::log(
            format!(
                "@{} withdrawing {}."""),
     (I, """        Promise::new(account_id).transfer(amount);
        self.last_total_balance -= amount;""",
      """        Promise::new(account_id).transfer(payout);
        self.last_total_balance -= amount;"""),
     (I, """impl StakingContract {
""", """/// A remainder not worth keeping: a thousandth of a token.
const MIN_REMAINDER: Balance = 1_000_000_000_000_000_000_000;

impl StakingContract {
""")],
    r'''
/// What the last call sends away.
fn sent() -> u128 {
    let r = receipts();
    let mut sum = 0u128;
    for part in r.split("\"Transfer\"").skip(1) {
        let at = part.find("\"deposit\"").unwrap() + 9;
        let digits: String =
            part[at..].chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
        sum += digits.parse::<u128>().unwrap();
    }
    sum
}

#[test]
fn booked_and_paid() {
    let mut p = pool(0);
    p.by("bob", 100 * N).deposit();
    p.by("ann", 50 * N).deposit();
    p.epoch += 1;
    p.by("ann", 0).ping();
    p.by("bob", 0).withdraw((100 * N - N / 5000).into());
    let paid = sent();
    p.liquid -= paid;
    assert_eq!(paid, 100 * N - N / 5000);
    assert_eq!(p.unstaked("bob"), N / 5000);
}
''')

bug("C02-dust-shares", "C02", "staking-pool",
    "an unstaking that leaves less than a thousandth of a token staked",
    "Shares worth less than a thousandth of a token are written off: the delegator loses what they are worth to the "
    "others.",
    [(I, """        account.stake_shares -= num_shares;
        account.unstaked += receive_amount;""",
      """        account.stake_shares -= num_shares;
        if self.staked_amount_from_num_shares_rounded_down(account.stake_shares) < MIN_STAKE {
            // Not worth keeping.
            self.total_stake_shares -= account.stake_shares;
            account.stake_shares = 0;
        }
        account.unstaked += receive_amount;"""),
     (I, """impl StakingContract {
""", """/// A stake not worth keeping: a thousandth of a token.
const MIN_STAKE: Balance = 1_000_000_000_000_000_000_000;

impl StakingContract {
""")],
    r'''
#[test]
fn nothing_is_lost() {
    let mut p = pool(0);
    p.by("bob", 10 * N).deposit_and_stake();
    p.epoch += 1;
    p.liquid += 3 * N;
    p.by("ann", 0).ping();
    let before = p.staked("bob") + p.unstaked("bob");
    let some = p.staked("bob") - N / 5000;
    p.by("bob", 0).unstake(some.into());
    let after = p.staked("bob") + p.unstaked("bob");
    assert!(after >= before, "had {} has {}", before, after);
}
''')

bug("C03-unstake-amount", "C03", "staking-pool",
    "a share price that is not whole, and an unstake amount that is not a whole number of shares",
    "Unstaking credits the amount asked for rather than the value of the shares it took.",
    [(I, """        account.unstaked += receive_amount;""", """        account.unstaked += amount;""")],
    r'''
#[test]
fn credited_for_the_shares() {
    let mut p = pool(0);
    p.by("bob", 10 * N).deposit_and_stake();
    p.epoch += 1;
    // Double the stake and more: a share is worth about 3.
    p.liquid += 80 * N;
    p.by("alice", 0).ping();
    let before = p.unstaked("bob");
    p.by("bob", 0).unstake(1.into());
    let got = p.unstaked("bob") - before;
    assert!(got >= 3, "one share is worth about 3 yocto, credited {}", got);
}
''')

bug("C04-no-extend", "C04", "staking-pool",
    "a second unstake by the same delegator one to three epochs after the first",
    "An unstake does not extend a lock that is still running, so later unstaked tokens come out early.",
    [(I, """        account.unstaked_available_epoch_height = env::epoch_height() + NUM_EPOCHS_TO_UNLOCK;""",
      """        if account.unstaked_available_epoch_height <= env::epoch_height() {
            account.unstaked_available_epoch_height = env::epoch_height() + NUM_EPOCHS_TO_UNLOCK;
        }""")],
    r'''
#[test]
fn second_unstake_locks() {
    let mut p = pool(0);
    p.by("bob", 10 * N).deposit_and_stake();
    p.by("bob", 0).unstake(N.into());
    p.epoch += 3;
    p.by("bob", 0).unstake(N.into());
    p.epoch += 1;
    assert!(!p.view().is_account_unstaked_balance_available("bob".to_string()));
    p.epoch += 3;
    assert!(p.view().is_account_unstaked_balance_available("bob".to_string()));
}
''')

bug("C05-new-fee-first", "C05", "staking-pool",
    "a fee change as the first operation of an epoch with income",
    "The new fee is applied to income that came in before the change.",
    [(P, """        let need_to_restake = self.internal_ping();
        self.reward_fee_fraction = reward_fee_fraction;
        if need_to_restake {""",
      """        self.reward_fee_fraction = reward_fee_fraction;
        if self.internal_ping() {""")],
    r'''
#[test]
fn old_fee_for_old_income() {
    let mut p = pool(0);
    p.by("bob", 10 * N).deposit_and_stake();
    p.epoch += 1;
    p.liquid += 10 * N;
    p.by("owner", 0).update_reward_fee_fraction(RewardFeeFraction { numerator: 100, denominator: 100 });
    assert_eq!(p.staked("owner"), 0);
}
''')

bug("C05-paused-income", "C05", "staking-pool",
    "income while staking is paused",
    "While paused, ping only moves the bookmark: the income of that time is never distributed.",
    [(I, """        let total_reward = total_balance - self.last_total_balance;
        if total_reward > 0 {""",
      """        let total_reward = total_balance - self.last_total_balance;
        if total_reward > 0 && !self.paused {""")],
    r'''
#[test]
fn income_while_paused() {
    let mut p = pool(0);
    p.by("bob", 10 * N).deposit_and_stake();
    p.by("owner", 0).pause_staking();
    let before = p.total();
    p.epoch += 1;
    p.liquid += 10 * N;
    p.by("bob", 0).ping();
    p.epoch += 1;
    p.by("owner", 0).resume_staking();
    p.epoch += 1;
    p.by("bob", 0).ping();
    assert_eq!(p.total(), before + 10 * N);
}
''')

bug("C06-signer-owner", "C06", "staking-pool",
    "the owner signs a transaction to a contract of someone else, which then calls the pool",
    "The owner check looks at the signer, not at the caller: any contract the owner uses controls the pool.",
    [(I, """            env::predecessor_account_id(),
            self.owner_id,""", """            env::signer_account_id(),
            self.owner_id,""")],
    r'''
#[test]
fn through_another_contract() {
    let mut p = pool(0);
    let mut c = p.ctx("evil", 0);
    c.signer_account_id = "owner".to_string();
    enter(c);
    assert!(fails(|| p.c.pause_staking()));
    p.by("owner", 0).pause_staking();
    assert!(p.view().is_staking_paused());
}
''')

bug("C07-resume-same-epoch", "C07", "staking-pool",
    "pause and resume within one epoch",
    "Resuming proposes the stake only when it is also the first operation of the epoch.",
    [(P, """        self.internal_ping();
        self.paused = false;
        self.internal_restake();""",
      """        let need_to_restake = self.internal_ping();
        self.paused = false;
        if need_to_restake {
            self.internal_restake();
        }""")],
    r'''
#[test]
fn resume_restakes() {
    let mut p = pool(0);
    p.by("bob", 10 * N).deposit_and_stake();
    p.by("owner", 0).pause_staking();
    p.by("owner", 0).resume_staking();
    let r = receipts();
    let total = p.total();
    assert!(r.contains(&format!("\"stake\":{}", total)), "{}", r);
}
''')

bug("C08-leavers", "C08", "staking-pool",
    "an account that has unstaked everything and waits for its unstaking delay",
    "Delegators who have unstaked everything are left out of the listing until they can withdraw.",
    [(P, """            .map(|index| self.get_account(keys.get(index).unwrap()))
            .collect()""",
      """            .map(|index| self.get_account(keys.get(index).unwrap()))
            .filter(|account| account.staked_balance.0 > 0 || account.can_withdraw)
            .collect()""")],
    r'''
#[test]
fn all_are_listed() {
    let mut p = pool(0);
    for who in &["a1", "b2", "c3", "d4", "e5"] {
        p.by(who, N).deposit_and_stake();
    }
    p.by("c3", 0).unstake_all();
    let mut got: Vec<String> = p.view().get_accounts(0, 10).into_iter().map(|a| a.account_id).collect();
    got.sort();
    assert_eq!(got, vec!["a1", "b2", "c3", "d4", "e5"]);
}
''')

bug("C08-dust", "C08", "staking-pool",
    "an account that stakes, unstakes everything and withdraws it all after the delay",
    "An account that has ever unstaked stays listed for good after it is empty.",
    [(I, """        if account.unstaked > 0 || account.stake_shares > 0 {""",
      """        if account.unstaked > 0
            || account.stake_shares > 0
            || account.unstaked_available_epoch_height > 0
        {""")],
    r'''
#[test]
fn empty_accounts_go() {
    let mut p = pool(0);
    p.by("bob", 10 * N).deposit_and_stake();
    p.by("bob", 0).unstake_all();
    p.epoch += 4;
    let un = p.unstaked("bob");
    p.by("bob", 0).withdraw_all();
    p.liquid -= un;
    assert_eq!(p.view().get_number_of_accounts(), 0);
    assert_eq!(p.view().get_accounts(0, 10).len(), 0);
}
''')

# ------------------------------------------------------------------------- pool factory, whitelist
F = "staking-pool-factory/src/lib.rs"
bug("C10-register-late", "C10", "staking-pool-factory",
    "two requests for one name in flight together",
    "The name is registered only when the creation is confirmed, so a second request in flight is accepted, and its "
    "failure removes the registration of the pool that exists.",
    [(F, """            self.staking_pool_account_ids
                .insert(&staking_pool_account_id),
            "The staking pool account ID already exists\"""",
      """            !self
                .staking_pool_account_ids
                .contains(&staking_pool_account_id),
            "The staking pool account ID already exists\""""),
     (F, """        if staking_pool_created {
            env::log(""",
      """        if staking_pool_created {
            self.staking_pool_account_ids
                .insert(&staking_pool_account_id);
            env::log(""")],
    r'''
#[test]
fn two_in_flight() {
    let mut f = factory();
    assert!(create(&mut f, ctx(ME, "ann"), "pool"));
    let second = create(&mut f, ctx(ME, "bob"), "pool");
    callback(&mut f, "pool", "ann", true);
    if second {
        callback(&mut f, "pool", "bob", false);
    }
    assert_eq!(count(&f), 1);
}
''')

bug("C10-refund-signer", "C10", "staking-pool-factory",
    "a creation request by a contract, on behalf of another signer, that fails",
    "The refund of a failed creation goes to whoever signed the transaction, not to who attached the deposit.",
    [(F, """                env::attached_deposit().into(),
                env::predecessor_account_id(),""",
      """                env::attached_deposit().into(),
                env::signer_account_id(),""")],
    r'''
#[test]
fn refund_to_the_payer() {
    let mut f = factory();
    let mut c = ctx(ME, "dao");
    c.signer_account_id = "member".to_string();
    assert!(create(&mut f, c, "pool"));
    let r = receipts();
    assert!(r.contains("dao") && !r.contains("member"), "{}", &r[r.len() - 500..]);
}
''')

W = "whitelist/src/lib.rs"
bug("C11-one-prefix", "C11", "whitelist",
    "a whitelisted staking pool that calls the whitelist itself",
    "Both sets share one storage prefix: a whitelisted pool counts as a factory.",
    [(W, """LookupSet::new(b"f".to_vec())""", """LookupSet::new(b"w".to_vec())""")],
    r'''
#[test]
fn pools_are_not_factories() {
    let mut w = new();
    by("near");
    w.add_staking_pool("pool".to_string());
    assert!(!w.is_factory_whitelisted("pool".to_string()));
    by("pool");
    assert!(fails(|| w.add_staking_pool("evil".to_string())));
}
''')
# ------------------------------------------------------------------------------------------ voting
V = "voting/src/lib.rs"
bug("C40-rounding", "C40", "voting",
    "a total stake that is not a multiple of three, with votes right at the edge",
    "The threshold is computed as a third of the total, rounded down, times two: less than two thirds can pass.",
    [(V, """        if self.total_voted_stake > 2 * total_stake / 3 {""",
      """        if self.total_voted_stake > total_stake / 3 * 2 {""")],
    r'''
#[test]
fn at_the_edge() {
    let st = [("a1", 7), ("b2", 4)];
    at("a1", 1, 5, &st);
    let mut v = VotingContract::new();
    v.vote(true);
    assert!(v.get_result().is_none());
    at("b2", 1, 6, &st);
    v.vote(true);
    assert_eq!(v.get_result().unwrap().0, 6);
}
''')
bug("C40-withdraw-no-ping", "C40", "voting",
    "a vote withdrawal as the first interaction of an epoch in which the stakes changed",
    "Withdrawing a vote does not refresh the stakes, so a majority of that epoch is missed or the votes are stale.",
    [(V, """        self.ping();
        if self.result.is_some() {
            return;
        }
        let account_id = env::predecessor_account_id();""",
      """        if is_vote {
            self.ping();
        }
        if self.result.is_some() {
            return;
        }
        let account_id = env::predecessor_account_id();""")],
    r'''
#[test]
fn withdrawal_refreshes() {
    at("a1", 1, 5, &[("a1", 10), ("b2", 10), ("c3", 10)]);
    let mut v = VotingContract::new();
    v.vote(true);
    at("b2", 1, 5, &[("a1", 10), ("b2", 10), ("c3", 10)]);
    v.vote(true);
    // Exactly two thirds so far. In the next epoch a1 has more.
    at("b2", 2, 9, &[("a1", 90), ("b2", 5), ("c3", 5)]);
    v.vote(false);
    assert_eq!(v.get_result().map(|t| t.0), Some(9));
}
''')
bug("C40-stale-drop", "C40", "voting",
    "a voter whose stake falls to zero in one epoch and returns in a later one",
    "Voters without stake keep their vote on the books for later epochs.",
    [(V, """                if account_current_stake > 0 {
                    self.votes.insert(account_id, account_current_stake);
                }""",
      """                self.votes.insert(account_id, account_current_stake);""")],
    r'''
#[test]
fn no_vote_without_stake() {
    at("a1", 1, 5, &[("a1", 10), ("b2", 10)]);
    let mut v = VotingContract::new();
    v.vote(true);
    at("b2", 2, 5, &[("b2", 10)]);
    v.ping();
    assert!(v.get_votes().is_empty());
}
''')

# ------------------------------------------------------------------------------------------ lockup
O = "lockup/src/owner.rs"
OC = "lockup/src/owner_callbacks.rs"
FO = "lockup/src/foundation.rs"
FC = "lockup/src/foundation_callbacks.rs"
G = "lockup/src/getters.rs"

bug("C20-transfer-busy", "C20", "lockup",
    "a transfer between the arrival of tokens withdrawn from the pool and the lockup's callback",
    "A transfer is accepted while a pool operation is in progress: withdrawn tokens then count twice.",
    [(O, """        self.assert_transfers_enabled();
        self.assert_no_staking_or_idle();
        self.assert_no_termination();
        assert!(
            self.get_liquid_owners_balance().0 >= amount.0,""",
      """        self.assert_transfers_enabled();
        self.assert_no_termination();
        assert!(
            self.get_liquid_owners_balance().0 >= amount.0,""")],
    r'''
#[test]
fn race_with_a_withdrawal() {
    // Half of it released.
    let mut l = new(0, Some(T0), enabled(T0 - DAY), None, Some(200 * DAY));
    l.now = T0 + 100 * DAY;
    l.select("pool");
    l.stake(400 * N);
    l.by("owner").withdraw_from_staking_pool((400 * N).into());
    l.balance += 400 * N; // the tokens are here, the callback is not
    assert!(fails(|| l.by("owner").transfer((800 * N).into(), "owner".to_string())));
}
''')
bug("C21-either-start", "C21", "lockup",
    "both a lockup timestamp and a later transfers time plus lockup duration",
    "An explicit lockup timestamp overrides the transfers time plus lockup duration instead of the later of both.",
    [(G, """            let lockup_timestamp = std::cmp::max(
                transfers_timestamp
                    .0
                    .saturating_add(self.lockup_information.lockup_duration),
                self.lockup_information.lockup_timestamp.unwrap_or(0),
            );""",
      """            let lockup_timestamp = self.lockup_information.lockup_timestamp.unwrap_or(
                transfers_timestamp
                    .0
                    .saturating_add(self.lockup_information.lockup_duration),
            );""")],
    r'''
#[test]
fn the_later_counts() {
    let mut l = new(100 * DAY, Some(T0 + DAY), enabled(T0), None, None);
    l.now = T0 + 50 * DAY;
    assert_eq!(l.view().get_locked_amount().0, TOTAL);
    l.now = T0 + 100 * DAY;
    assert_eq!(l.view().get_locked_amount().0, 0);
}
''')
bug("C21-withdrawn-outside", "C21", "lockup",
    "a termination whose unvested tokens were withdrawn in part so far",
    "Tokens withdrawn by termination are subtracted from the unvested remainder as well.",
    [(G, """                return std::cmp::max(
                    unreleased_amount
                        .saturating_sub(self.lockup_information.termination_withdrawn_tokens),
                    unvested_amount.0,
                )
                .into();""",
      """                return std::cmp::max(unreleased_amount, unvested_amount.0)
                    .saturating_sub(self.lockup_information.termination_withdrawn_tokens)
                    .into();""")],
    r'''
#[test]
fn partly_withdrawn() {
    let mut l = new(0, Some(T0), enabled(T0 - DAY), Some(schedule(T0, T0, T0 + 200 * DAY)), None);
    l.now = T0 + 100 * DAY;
    l.select("pool");
    l.stake(300 * N);
    l.stake(600 * N);
    // 500 unvested, about 96.5 here.
    l.by("near").terminate_vesting(None);
    l.by("near").termination_prepare_to_withdraw();
    l.cb(true).on_get_account_staked_balance_to_unstake(0.into());
    l.by("near").termination_prepare_to_withdraw();
    l.cb(true).on_get_account_unstaked_balance_to_withdraw(0.into());
    l.by("near").termination_withdraw("near".to_string());
    l.balance -= 90 * N;
    l.cb(true).on_withdraw_unvested_amount((90 * N).into(), "near".to_string());
    assert_eq!(l.view().get_locked_amount().0, 410 * N);
}
''')
bug("C22-deficit-reserve", "C22", "lockup",
    "a termination when the account holds the unvested amount only if the storage reserve is counted",
    "The deficit at termination is computed without the storage reserve: the foundation cannot get the rest back "
    "from the pool.",
    [(FO, """        let deficit = unvested_amount
            .0
            .saturating_sub(self.get_account_balance().0);""",
      """        let deficit = unvested_amount.0.saturating_sub(env::account_balance());""")],
    r'''
#[test]
fn reserve_is_no_cover() {
    let mut l = new(0, Some(T0), enabled(T0 - DAY), Some(schedule(T0, T0, T0 + 200 * DAY)), None);
    l.now = T0 + 100 * DAY;
    l.select("pool");
    l.stake(499 * N); // 501 left, 500 unvested, reserve above 1
    l.by("near").terminate_vesting(None);
    assert!(!fails(|| l.by("near").termination_prepare_to_withdraw()));
}
''')
bug("C22-terminate-busy", "C22", "lockup",
    "a failed transfer of the unvested tokens (the receiver does not exist)",
    "After a failed transfer of the unvested tokens the termination stays in progress for good.",
    [(FC, """        } else {
            self.set_termination_status(TerminationStatus::ReadyToWithdraw);
            env::log(
                format!(
                    "Termination Step: The withdrawal of the terminated unvested amount of {} to @{} failed",""",
      """        } else {
            env::log(
                format!(
                    "Termination Step: The withdrawal of the terminated unvested amount of {} to @{} failed",""")],
    r'''
#[test]
fn failed_transfer() {
    let mut l = new(0, Some(T0), enabled(T0 - DAY), Some(schedule(T0, T0, T0 + 200 * DAY)), None);
    l.now = T0 + 100 * DAY;
    l.by("near").terminate_vesting(None);
    l.by("near").termination_withdraw("nobody".to_string());
    l.cb(false).on_withdraw_unvested_amount((500 * N).into(), "nobody".to_string());
    assert!(!fails(|| l.by("near").termination_withdraw("near".to_string())));
}
''')
bug("C23-nothing-to-withdraw", "C23", "lockup",
    "withdraw-all when nothing is unstaked on the pool",
    "The lockup stays busy after a withdraw-all that found nothing to withdraw.",
    [(OC, """            env::log(b"No unstaked balance on the staking pool to withdraw");
            self.set_staking_pool_status(TransactionStatus::Idle);""",
      """            env::log(b"No unstaked balance on the staking pool to withdraw");""")],
    r'''
#[test]
fn idle_again() {
    let mut l = new(0, Some(T0), enabled(T0 - DAY), None, None);
    l.select("pool");
    l.stake(100 * N);
    l.by("owner").withdraw_all_from_staking_pool();
    l.cb(true).on_get_account_unstaked_balance_to_withdraw_by_owner(0.into());
    assert!(!fails(|| l.by("owner").unstake_all()));
}
''')
bug("C23-withdraw-first", "C23", "lockup",
    "a withdrawal from the pool that fails",
    "The remembered deposit is reduced whether or not the withdrawal succeeded.",
    [(OC, """        let withdraw_succeeded = is_promise_success();
        self.set_staking_pool_status(TransactionStatus::Idle);

        if withdraw_succeeded {
            {
                let staking_information = self.staking_information.as_mut().unwrap();
                // Due to staking rewards the deposit amount can become negative.
                staking_information.deposit_amount.0 = staking_information
                    .deposit_amount
                    .0
                    .saturating_sub(amount.0);
            }
            env::log(""",
      """        let withdraw_succeeded = is_promise_success();
        self.set_staking_pool_status(TransactionStatus::Idle);
        {
            let staking_information = self.staking_information.as_mut().unwrap();
            // Due to staking rewards the deposit amount can become negative.
            staking_information.deposit_amount.0 = staking_information
                .deposit_amount
                .0
                .saturating_sub(amount.0);
        }

        if withdraw_succeeded {
            env::log(""")],
    r'''
#[test]
fn failed_withdrawal() {
    let mut l = new(0, Some(T0), enabled(T0 - DAY), None, None);
    l.select("pool");
    l.stake(100 * N);
    l.by("owner").withdraw_from_staking_pool((60 * N).into());
    l.cb(false).on_staking_pool_withdraw((60 * N).into());
    assert_eq!(l.known(), 100 * N);
}
''')
bug("C23-refresh-max", "C23", "lockup",
    "a refresh after the pool's balance came to be below what is remembered",
    "A refresh never lowers the remembered deposit.",
    [(OC, """        self.staking_information.as_mut().unwrap().deposit_amount = total_balance;""",
      """        let staking_information = self.staking_information.as_mut().unwrap();
        staking_information.deposit_amount =
            std::cmp::max(staking_information.deposit_amount.0, total_balance.0).into();""")],
    r'''
#[test]
fn refresh_is_exact() {
    let mut l = new(0, Some(T0), enabled(T0 - DAY), None, None);
    l.select("pool");
    l.stake(100 * N);
    l.by("owner").refresh_staking_pool_balance();
    l.cb(true).on_get_account_total_balance((100 * N - 1).into());
    assert_eq!(l.known(), 100 * N - 1);
}
''')
bug("C24-second-select", "C24", "lockup",
    "two pool selections in flight together, with a deposit in between",
    "The whitelist callback does not check again that no pool is selected.",
    [(OC, """        self.assert_staking_pool_is_not_selected();
        self.assert_no_termination();
        self.staking_information = Some(""",
      """        self.assert_no_termination();
        self.staking_information = Some(""")],
    r'''
#[test]
fn two_selections() {
    let mut l = new(0, Some(T0), enabled(T0 - DAY), None, None);
    l.by("owner").select_staking_pool("pool1".to_string());
    l.by("owner").select_staking_pool("pool2".to_string());
    l.cb(true).on_whitelist_is_whitelisted(true, "pool1".to_string());
    l.stake(100 * N);
    assert!(fails(|| l.cb(true).on_whitelist_is_whitelisted(true, "pool2".to_string())));
    assert_eq!(l.view().get_staking_pool_account_id(), Some("pool1".to_string()));
}
''')
bug("C24-stake-terminating", "C24", "lockup",
    "the owner restakes on the pool between the foundation's termination steps",
    "Staking is accepted while vesting is being terminated.",
    [(O, """        self.assert_staking_pool_is_idle();
        self.assert_no_termination();

        env::log(
            format!(
                "Staking {} at the staking pool @{}",""",
      """        self.assert_staking_pool_is_idle();

        env::log(
            format!(
                "Staking {} at the staking pool @{}",""")],
    r'''
#[test]
fn no_stake_while_terminating() {
    let mut l = new(0, Some(T0), enabled(T0 - DAY), Some(schedule(T0, T0, T0 + 200 * DAY)), None);
    l.now = T0 + 100 * DAY;
    l.select("pool");
    l.stake(900 * N);
    l.by("near").terminate_vesting(None);
    assert!(fails(|| l.by("owner").stake(N.into())));
}
''')
bug("C26-key-busy", "C26", "lockup",
    "a full access key request while a pool operation is in flight",
    "A full access key is added while a pool operation is in progress.",
    [(O, """        self.assert_transfers_enabled();
        self.assert_no_staking_or_idle();
        self.assert_no_termination();
        assert_eq!(self.get_locked_amount().0, 0, "Tokens are still locked/unvested");""",
      """        self.assert_transfers_enabled();
        self.assert_no_termination();
        assert_eq!(self.get_locked_amount().0, 0, "Tokens are still locked/unvested");""")],
    r'''
#[test]
fn not_while_busy() {
    let mut l = new(0, Some(T0), enabled(T0 - DAY), None, None);
    l.now = T0 + DAY;
    l.select("pool");
    l.by("owner").deposit_to_staking_pool(N.into());
    let key = Base58PublicKey::try_from("KuTCtARNzxZQ3YvXDeLjx83FDqxv2SdQTSbiq876zR7".to_string()).unwrap();
    assert!(fails(|| l.by("owner").add_full_access_key(key)));
}
''')
bug("C27-unstake-known", "C27", "lockup",
    "unstake-all on a pool with rewards",
    "Unstaking everything withdraws only what is unstaked up to the remembered deposit: rewards stay behind, and "
    "nothing comes out once nothing is remembered.",
    [(OC, """        assert_self();
        if unstaked_balance.0 > 0 {
            // Need to withdraw
            env::log(
                format!(
                    "Withdrawing {} from the staking pool @{}",""",
      """        assert_self();
        let unstaked_balance: WrappedBalance =
            std::cmp::min(unstaked_balance.0, self.get_known_deposited_balance().0).into();
        if unstaked_balance.0 > 0 {
            // Need to withdraw
            env::log(
                format!(
                    "Withdrawing {} from the staking pool @{}",""")],
    r'''
#[test]
fn rewards_come_out() {
    let mut l = new(0, Some(T0), enabled(T0 - DAY), None, None);
    l.select("pool");
    l.stake(100 * N);
    l.by("owner").withdraw_all_from_staking_pool();
    { l.cb(true).on_get_account_unstaked_balance_to_withdraw_by_owner((107 * N).into()); }
    let r = receipts();
    assert!(r.contains(&format!("{}", 107 * N)), "{}", r);
}
''')

# ------------------------------------------------------------------------------------ C28 (lockup gas)
GAS = "lockup/src/gas.rs"
GASDEMO = """
fn gas(l: &mut L, who: &str, tgas: u64) {
    let mut c = ctx("lockup", who);
    c.account_balance = l.balance;
    c.block_timestamp = l.now;
    c.prepaid_gas = tgas * 1_000_000_000_000;
    let r = if who == "lockup" { vec![PromiseResult::Successful(vec![])] } else { vec![] };
    enter_with(c, r, HashMap::new());
}
"""
bug("C28-termination-room", "C28", "lockup",
    "a termination with a deficit, prepared with the documented 175 Tgas",
    "The callback that unstakes for the termination asks for one base unit more than the documentation leaves.",
    [(GAS, """        super::BASE_GAS + super::staking_pool::UNSTAKE + ON_STAKING_POOL_UNSTAKE_FOR_TERMINATION;""",
      """        2 * super::BASE_GAS + super::staking_pool::UNSTAKE + ON_STAKING_POOL_UNSTAKE_FOR_TERMINATION;""")],
    GASDEMO + r"""
#[test]
fn prepares_with_documented_gas() {
    let mut l = new(0, None, enabled(T0 - DAY), Some(schedule(T0 - 9 * DAY, T0 + DAY, T0 + 100 * DAY)), None);
    l.select("pool");
    l.stake(900 * N);
    l.by("near").terminate_vesting(None);
    gas(&mut l, "near", 175);
    l.c.termination_prepare_to_withdraw();
}
""")
bug("C28-refresh-first", "C28", "lockup",
    "a deposit into a pool, with exactly the documented gas",
    "The plain deposit is given as much gas for the pool as deposit-and-stake: the documented 100 Tgas no longer suffice.",
    [(GAS, """    pub const DEPOSIT: u64 = super::BASE_GAS * 2;""", """    pub const DEPOSIT: u64 = DEPOSIT_AND_STAKE;""")],
    GASDEMO + r"""
#[test]
fn deposits_with_documented_gas() {
    let mut l = new(0, Some(T0), enabled(T0 - DAY), None, None);
    l.select("pool");
    gas(&mut l, "owner", 100);
    l.c.deposit_to_staking_pool((100 * N).into());
}
""")

# ------------------------------------------------------------------------------------ C41 (pools vote)
bug("C41-paused-vote", "C41", "staking-pool",
    "a pool that votes and is then paused before the poll ends",
    "A paused pool cannot withdraw its vote any more.",
    [(P, """        self.assert_owner();
        assert!(
            env::is_valid_account_id(voting_account_id.as_bytes()),""",
      """        self.assert_owner();
        assert!(!self.paused, "Can't vote while staking is paused");
        assert!(
            env::is_valid_account_id(voting_account_id.as_bytes()),""")],
    r"""
#[test]
fn paused_pool_withdraws_its_vote() {
    let mut p = pool(10);
    p.by("owner", 0).vote("poll".to_string(), true);
    p.by("owner", 0).pause_staking();
    p.by("owner", 0).vote("poll".to_string(), false);
    assert!(receipts().contains("poll"));
}
""")
bug("C41-vote-once", "C41", "staking-pool",
    "a vote cast while the pool had no stake, or dropped by the poll since, and cast again",
    "The pool remembers the vote it sent last and does not send it again, although the poll may have refused or dropped it.",
    [(P, """        ext_voting::vote(is_vote, &voting_account_id, NO_DEPOSIT, VOTE_GAS)""",
      """        let key = [b"v".to_vec(), voting_account_id.as_bytes().to_vec()].concat();
        assert!(
            env::storage_read(&key) != Some(vec![is_vote as u8]),
            "This vote was already sent"
        );
        env::storage_write(&key, &[is_vote as u8]);
        ext_voting::vote(is_vote, &voting_account_id, NO_DEPOSIT, VOTE_GAS)""")],
    r"""
#[test]
fn votes_again() {
    let mut p = pool(10);
    for _ in 0..2 {
        p.by("owner", 0).vote("poll".to_string(), true);
        assert!(receipts().contains("poll"));
    }
}
""")
# ---------------------------------------------------------------------------------- lockup factory
LF = "lockup-factory/src/lib.rs"
bug("C30-refund-signer", "C30", "lockup-factory",
    "a creation by a contract on behalf of another signer that fails",
    "A failed creation is refunded to the signer.",
    [(LF, """                env::attached_deposit().into(),
                env::predecessor_account_id(),""",
      """                env::attached_deposit().into(),
                env::signer_account_id(),""")],
    r'''
#[test]
fn refund_to_the_payer() {
    let mut f = factory();
    let mut c = ctx(ME, "dao");
    c.signer_account_id = "member".to_string();
    c.attached_deposit = 10 * N;
    c.account_balance = 100 * N;
    enter(c);
    { f.create(valid("ann"), 0.into(), None, None, None, None); }
    let r = strip(receipts());
    assert!(r.contains("dao") && !r.contains("member"), "{}", r);
}
''')
bug("C30-whitelist", "C30", "lockup-factory",
    "a creation with both a vesting schedule and a whitelist of its own",
    "The given whitelist is ignored for lockups with vesting.",
    [(LF, """        let staking_pool_whitelist_account_id = if let Some(account_id) = whitelist_account_id {
            account_id.into()
        } else {
            self.whitelist_account_id.clone()
        };""",
      """        let staking_pool_whitelist_account_id = match whitelist_account_id {
            Some(account_id) if foundation_account.is_none() => account_id.into(),
            _ => self.whitelist_account_id.clone(),
        };""")],
    r'''
#[test]
fn given_whitelist() {
    let mut f = factory();
    let mut c = ctx(ME, "ann");
    c.attached_deposit = 10 * N;
    c.account_balance = 100 * N;
    enter(c);
    let vs = VestingScheduleOrHash::VestingSchedule(VestingSchedule {
        start_timestamp: 1.into(),
        cliff_timestamp: 2.into(),
        end_timestamp: 3.into(),
    });
    { f.create(valid("ann"), 0.into(), None, Some(vs), None, Some(valid("mylist"))); }
    let r = strip(receipts());
    assert!(r.contains("mylist"), "{}", r);
}
''')

# ---------------------------------------------------------------------------------------- multisig
M2 = "multisig2/src/lib.rs"
bug("C50-by-signer-key", "C50", "multisig2",
    "a member account that confirms twice with two access keys of its own",
    "Confirmations are remembered by the signing key instead of the member.",
    [(M2, """        assert(
            !confirmations.contains(&member.to_string()),
            "Already confirmed this request with this key",
        );""",
      """        let confirmer = match &member {
            MultisigMember::AccessKey { .. } => member.to_string(),
            MultisigMember::Account { account_id } => {
                format!("{}:{:?}", account_id, env::signer_account_pk())
            }
        };
        assert(
            !confirmations.contains(&confirmer),
            "Already confirmed this request with this key",
        );"""),
     (M2, """            confirmations.insert(member.to_string());""", """            confirmations.insert(confirmer);""")],
    r'''
#[test]
fn one_member_one_confirmation() {
    let mut c = new(vec![member("ann"), member("bob"), member("cat")], 2);
    by_key("ann", 1, 0);
    let r = c.add_request_and_confirm(transfer());
    by_key("ann", 2, 0);
    assert!(fails(|| { c.confirm(r); }));
    by_key("bob", 1, 0);
    { c.confirm(r); }
    assert!(sent());
}
''')
bug("C50-pending-threshold", "C50", "multisig2",
    "a request to raise the threshold above the number of members has been executed, then every member confirms another request",
    "A request is executed once every member has confirmed it, although fewer confirmations than the threshold.",
    [(M2, """        if confirmations.len() as u32 + 1 >= self.num_confirmations {
            let request = self.remove_request(request_id);""",
      """        if confirmations.len() as u32 + 1 >= self.num_confirmations
            || confirmations.len() as u64 + 1 >= self.members.len()
        {
            let request = self.remove_request(request_id);""")],
    r'''
// The threshold can be set above the number of members: nothing runs then.
#[test]
fn threshold_above_members() {
    let mut c = new(vec![member("ann"), member("bob")], 1);
    by("ann", 0);
    let r = c.add_request(req("multi", near_sdk::serde_json::json!([{"type": "SetNumConfirmations", "num_confirmations": 3}])));
    { c.confirm(r); }
    let r = c.add_request_and_confirm(transfer());
    assert!(!sent());
    by("bob", 0);
    { c.confirm(r); }
    assert!(!sent());
}
''')
bug("C51-reuse-number", "C51", "multisig2",
    "deleting the newest request and adding another",
    "The number of the newest request is used again after it is deleted.",
    [(M2, """            "Request cannot be deleted immediately after creation.",
        );
        self.remove_request(request_id);""",
      """            "Request cannot be deleted immediately after creation.",
        );
        self.remove_request(request_id);
        if request_id + 1 == self.request_nonce {
            self.request_nonce = request_id;
        }""")],
    r'''
#[test]
fn fresh_numbers() {
    let mut c = new(vec![member("ann"), member("bob")], 2);
    by("ann", 0);
    let a = c.add_request(transfer());
    by("ann", 16 * MIN);
    c.delete_request(a);
    let b = c.add_request(transfer());
    assert_ne!(a, b);
}
''')
bug("C51-origin", "C51", "multisig2",
    "a transaction of the account itself, signed with a member's key that has full access, to a contract that calls back",
    "A key member is recognised by who signed the transaction, not by who calls: a contract called on the way acts for the key.",
    [(M2, """        let member = if env::current_account_id() == env::predecessor_account_id() {""",
      """        let member = if env::current_account_id() == env::signer_account_id() {""")],
    r'''
#[test]
fn not_through_others() {
    let mut c = new(vec![member("ann"), key_member(1)], 2);
    by("ann", 0);
    let a = c.add_request_and_confirm(transfer());
    testing_env!(VMContextBuilder::new()
        .current_account_id(id("multi"))
        .predecessor_account_id(id("shop"))
        .signer_account_id(id("multi"))
        .signer_account_pk(key(1))
        .build());
    assert!(fails(|| { c.confirm(a); }));
}
''')
bug("C50-gas-cap", "C50", "multisig2",
    "a function call that asks for more than 200 Tgas",
    "More gas than the cap is not passed on: the call is not issued as it was submitted.",
    [(M2, """                    Gas::from(gas.0),""",
      """                    Gas::from(std::cmp::min(gas.0, 200_000_000_000_000)),""")],
    r'''
#[test]
fn gas_as_asked() {
    let mut c = new(vec![member("ann")], 1);
    by("ann", 0);
    let q = req("bob", json!([{"type": "FunctionCall", "method_name": "x", "args": "", "deposit": "0", "gas": "210000000000000"}]));
    let id = c.add_request(q);
    let g = near_sdk::Gas(300_000_000_000_000);
    testing_env!(VMContextBuilder::new()
        .current_account_id(self::id("multi"))
        .predecessor_account_id(self::id("ann"))
        .prepaid_gas(g)
        .build());
    { c.confirm(id); }
    assert!(format!("{:?}", get_created_receipts()).contains("210000000000000"), "{:?}", get_created_receipts());
}
''')
bug("C51-cooldown", "C51", "multisig2",
    "a request made late in a minute and deleted early in the minute in which the cooldown ends",
    "The cooldown is compared in whole minutes: a request can be deleted up to a minute too early.",
    [(M2, """            env::block_timestamp() > request_with_signer.added_timestamp + REQUEST_COOLDOWN,""",
      """            env::block_timestamp() / 60_000_000_000 >=
                (request_with_signer.added_timestamp + REQUEST_COOLDOWN) / 60_000_000_000,""")],
    r'''
#[test]
fn full_cooldown() {
    let mut c = new(vec![member("ann"), member("bob")], 2);
    by("ann", MIN / 2);
    let a = c.add_request(transfer());
    by("ann", 15 * MIN + 10);
    assert!(fails(|| c.delete_request(a)));
    by("ann", 15 * MIN + MIN / 2 + 1);
    c.delete_request(a);
}
''')
bug("C52-batch-delete", "C52", "multisig2",
    "one request that removes several members at once",
    "The threshold is checked against the number of members before removals, off by one.",
    [(M2, """            self.members.len() - 1 >= self.num_confirmations as u64,""",
      """            self.members.len() >= self.num_confirmations as u64,""")],
    r'''
#[test]
fn members_stay_enough() {
    let mut c = new(vec![member("ann"), member("bob")], 2);
    by("ann", 0);
    let r = c.add_request_and_confirm(req("multi", json!([{"type": "DeleteMember", "member": {"account_id": "bob"}}])));
    by("bob", 0);
    assert!(fails(|| { c.confirm(r); }));
}
''')
bug("C52-add-elsewhere", "C52", "multisig2",
    "an executed request addressed to another account with an AddMember action",
    "AddMember works in requests addressed to other accounts.",
    [(M2, """                MultiSigRequestAction::AddMember { member } => {
                    self.assert_self_request(receiver_id.clone());""",
      """                MultiSigRequestAction::AddMember { member } => {""")],
    r'''
#[test]
fn only_to_itself() {
    let mut c = new(vec![member("ann"), member("bob")], 1);
    by("ann", 0);
    let r = c.add_request(req("bob", json!([{"type": "AddMember", "member": {"account_id": "eve"}}])));
    assert!(fails(|| { c.confirm(r); }));
    let r = c.add_request(req("multi", json!([{"type": "AddMember", "member": {"account_id": "eve"}}])));
    { c.confirm(r); }
    assert_eq!(c.get_members().len(), 3);
}
''')

M1 = "multisig/src/lib.rs"
bug("C53-exact-count", "C53", "multisig",
    "the threshold is lowered to or below the number of confirmations a request already has",
    "A request runs only when the count equals the threshold exactly: after lowering it never runs.",
    [(M1, """        if confirmations.len() as u32 + 1 >= self.num_confirmations {""",
      """        if confirmations.len() as u32 + 1 == self.num_confirmations {""")],
    r'''
#[test]
fn lowered_threshold() {
    by(1, 0);
    let mut c = MultiSigContract::new(3);
    let r = c.add_request_and_confirm(transfer());
    let s = c.add_request_and_confirm(req("multi", json!([{"type": "SetNumConfirmations", "num_confirmations": 1}])));
    by(2, 0);
    { c.confirm(r); }
    { c.confirm(s); }
    by(3, 0);
    { c.confirm(s); }
    by(3, 0);
    { c.confirm(r); }
    assert!(receipts().contains("777"));
}
''')
bug("C53-delete-elsewhere", "C53", "multisig",
    "an executed request to another account with a DeleteKey action",
    "DeleteKey works in requests addressed to other accounts, and cancels the key's requests here.",
    [(M1, """                MultiSigRequestAction::DeleteKey { public_key } => {
                    self.assert_self_request(receiver_id.clone());""",
      """                MultiSigRequestAction::DeleteKey { public_key } => {""")],
    r'''
#[test]
fn only_to_itself() {
    by(1, 0);
    let mut c = MultiSigContract::new(1);
    let key: String = (&key58(2)).into();
    let r = c.add_request(req("bob", json!([{"type": "DeleteKey", "public_key": key}])));
    assert!(fails(|| { c.confirm(r); }));
    let r = c.add_request(req("multi", json!([{"type": "DeleteKey", "public_key": key}])));
    { c.confirm(r); }
}
''')
bug("C53-origin", "C53", "multisig",
    "a transaction of the account itself to a contract that calls back with a confirmation",
    "Confirming asks who signed the transaction, not who calls: a contract called on the way can confirm.",
    [(M1, """        // request must come from key added to contract account
        assert_eq!(
            env::current_account_id(),
            env::predecessor_account_id(),""",
      """        // request must come from key added to contract account
        assert_eq!(
            env::current_account_id(),
            env::signer_account_id(),""")],
    r'''
#[test]
fn not_through_others() {
    by(1, 0);
    let mut c = MultiSigContract::new(2);
    let x = c.add_request(transfer());
    c.confirm(x);
    let mut k = ctx("multi", "shop");
    k.signer_account_id = "multi".to_string();
    k.signer_account_pk = key(2);
    k.account_balance = 1000 * N;
    enter(k);
    assert!(fails(|| { c.confirm(x); }));
}
''')
bug("C54-wrong-slot", "C54", "multisig",
    "a request added by one key and executed or deleted by another",
    "Finishing a request frees a slot of the key that finished it, not of the key that added it.",
    [(M1, """        let original_signer_pk = request_with_signer.signer_pk;""",
      """        let original_signer_pk = env::signer_account_pk();""")],
    r'''
#[test]
fn slot_of_the_adder() {
    by(1, 0);
    let mut c = MultiSigContract::new(1);
    let r = c.add_request(transfer());
    by(2, 0);
    { c.confirm(r); }
    assert_eq!(c.get_num_requests_pk(key58(1)), 0);
}
''')
bug("C54-keep-requests", "C54", "multisig",
    "deleting a key that has several open requests",
    "Deleting a key cancels its requests one by one while walking the list, and misses some.",
    [(M1, """                    let request_ids: Vec<u32> = self
                        .requests
                        .iter()
                        .filter(|(_k, r)| r.signer_pk == pk)
                        .map(|(k, _r)| k)
                        .collect();
                    for request_id in request_ids {
                        // remove confirmations for this request
                        self.confirmations.remove(&request_id);
                        self.requests.remove(&request_id);
                    }""",
      """                    let mut index = 0;
                    while index < self.requests.len() {
                        let request_id = self.requests.keys_as_vector().get(index).unwrap();
                        if self.requests.get(&request_id).unwrap().signer_pk == pk {
                            // remove confirmations for this request
                            self.confirmations.remove(&request_id);
                            self.requests.remove(&request_id);
                        }
                        index += 1;
                    }""")],
    r'''
#[test]
fn all_requests_of_the_key() {
    by(1, 0);
    let mut c = MultiSigContract::new(1);
    by(2, 0);
    for _ in 0..4 {
        c.add_request(transfer());
    }
    by(1, 0);
    let key: String = (&key58(2)).into();
    let r = c.add_request(req("multi", json!([{"type": "DeleteKey", "public_key": key}])));
    { c.confirm(r); }
    assert!(c.list_request_ids().is_empty());
}
''')

bug("C54-stale-confirmations", "C54", "multisig",
    "deleting a key that has an open request which somebody had confirmed",
    "The requests of a deleted key go, but the confirmations they had stay behind for good.",
    [(M1, """                        // remove confirmations for this request
                        self.confirmations.remove(&request_id);
                        self.requests.remove(&request_id);
                    }
                    // remove num""",
      """                        self.requests.remove(&request_id);
                    }
                    // remove num""")],
    r'''
#[test]
fn nothing_stays_behind() {
    by(1, 0);
    let mut c = MultiSigContract::new(2);
    by(2, 0);
    let x = c.add_request(transfer());
    c.confirm(x);
    by(1, 0);
    let key: String = (&key58(2)).into();
    let r = c.add_request(req("multi", json!([{"type": "DeleteKey", "public_key": key}])));
    { c.confirm(r); }
    by(3, 0);
    { c.confirm(r); }
    assert!(c.list_request_ids().is_empty());
    assert!(fails(|| { c.get_confirmations(x); }));
}
''')

MF = "multisig-factory/src/lib.rs"
bug("C55-threshold-width", "C55", "multisig-factory",
    "a requested threshold above 2^32",
    "The threshold is narrowed to 32 bits: an absurd threshold creates a multisig with a small one instead of being refused.",
    [(MF, """                json!({ "members": members, "num_confirmations": num_confirmations })""",
      """                json!({ "members": members, "num_confirmations": num_confirmations as u32 })""")],
    r'''
#[test]
fn threshold_as_asked() {
    let mut c = ctx("factory", "ann");
    c.attached_deposit = 10 * N;
    c.account_balance = 100 * N;
    let r = create(c, (1u64 << 32) + 1);
    assert!(r.contains("4294967297"), "{}", r);
}
''')
bug("C55-minimum", "C55", "multisig-factory",
    "a request with less than the minimum attached, and a factory with tokens of its own",
    "The factory tops a small deposit up from its own balance.",
    [(MF, """            .transfer(env::attached_deposit())""",
      """            .transfer(std::cmp::max(
                env::attached_deposit(),
                5_000_000_000_000_000_000_000_000,
            ))""")],
    r'''
#[test]
fn exactly_the_deposit() {
    let mut c = ctx("factory", "ann");
    c.attached_deposit = 3 * N;
    c.account_balance = 100 * N;
    let r = create(c, 1);
    assert!(r.contains(&format!("\"deposit\":{}", 3 * N)), "{}", r);
}
''')

# ------------------------------------------------------------------------------------ wrapped NEAR
WN = "w-near/src/w_near.rs"
WL = "w-near/src/lib.rs"
bug("C60-optional-yocto", "C60", "w-near",
    "unwrapping without the one attached yocto, when nothing but the backing is on the account",
    "The one yocto is optional but returned all the same: every such unwrap pays one yocto too much.",
    [(WN, """        assert_one_yocto();
        let account_id""", """        assert!(
            env::attached_deposit() <= 1,
            "Requires attached deposit of at most 1 yoctoNEAR"
        );
        let account_id"""),
     (WN, "use near_sdk::{assert_one_yocto, env, log, Promise};", "use near_sdk::{env, log, Promise};")],
    r'''
#[test]
fn no_free_yocto() {
    let mut c = new();
    by("ann", 10 * N);
    c.near_deposit();
    by("ann", 0);
    let bad = fails(|| { c.near_withdraw(N.into()); });
    assert!(bad || receipts().contains(&format!("\"deposit\":{}", N)), "{}", receipts());
}
''')
CORE = '''#[near_bindgen]
impl FungibleTokenCore for Contract {
    #[payable]
    fn ft_transfer(&mut self, receiver_id: ValidAccountId, amount: U128, memo: Option<String>) {
        self.ft.ft_transfer(receiver_id, amount, memo)
    }

    #[payable]
    fn ft_transfer_call(
        &mut self,
        receiver_id: ValidAccountId,
        amount: U128,
        memo: Option<String>,
        msg: String,
    ) -> PromiseOrValue<U128> {
        self.ft.ft_transfer_call(receiver_id, amount, memo, msg)
    }

    fn ft_total_supply(&self) -> U128 {
        self.ft.ft_total_supply()
    }

    fn ft_balance_of(&self, account_id: ValidAccountId) -> U128 {
        self.ft.ft_balance_of(account_id)
    }
}
'''
bug("C61-keep-change", "C61", "w-near",
    "a transfer-call whose receiver uses a part and spends tokens before the settlement",
    "The unused part is only returned if the receiver still holds all of it.",
    [(WL, """near_contract_standards::impl_fungible_token_core!(Contract, ft);""",
      """use near_contract_standards::fungible_token::core::FungibleTokenCore;
use near_contract_standards::fungible_token::resolver::FungibleTokenResolver;

""" + CORE + """
#[near_bindgen]
impl FungibleTokenResolver for Contract {
    #[private]
    fn ft_resolve_transfer(
        &mut self,
        sender_id: ValidAccountId,
        receiver_id: ValidAccountId,
        amount: U128,
    ) -> U128 {
        let sender_id: AccountId = sender_id.into();
        if self.ft.ft_balance_of(receiver_id.clone()).0 < amount.0 {
            // The receiver has used the tokens already.
            return amount;
        }
        self.ft.internal_ft_resolve_transfer(&sender_id, receiver_id, amount).0.into()
    }
}""")],
    r'''
#[test]
fn what_is_left_comes_back() {
    let mut c = new();
    by("ann", 10 * N);
    c.near_deposit();
    by("bob", N);
    c.near_deposit();
    by("dan", N);
    c.near_deposit();
    let ann = c.ft_balance_of(valid("ann")).0;
    by("ann", 1);
    { c.ft_transfer_call(valid("bob"), (5 * N).into(), None, "x".to_string()); }
    let bob = c.ft_balance_of(valid("bob")).0;
    by("bob", 1);
    c.ft_transfer(valid("dan"), (bob - N).into(), None);
    let mut x = ctx("wnear", "wnear");
    x.account_balance = 1000 * N;
    enter_with(x, vec![PromiseResult::Failed], HashMap::new());
    let used = c.ft_resolve_transfer(valid("ann"), valid("bob"), (5 * N).into());
    assert_eq!(used.0, 4 * N);
    assert_eq!(c.ft_balance_of(valid("ann")).0, ann - 4 * N);
}
''')
bug("C62-force-default", "C62", "w-near",
    "unregistering with a balance and without the force argument",
    "Unregistering without the force argument is forced: the balance is burnt.",
    [(WL, """near_contract_standards::impl_fungible_token_storage!(Contract, ft);""",
      """use near_contract_standards::storage_management::{
    StorageBalance, StorageBalanceBounds, StorageManagement,
};

#[near_bindgen]
impl StorageManagement for Contract {
    #[payable]
    fn storage_deposit(
        &mut self,
        account_id: Option<ValidAccountId>,
        registration_only: Option<bool>,
    ) -> StorageBalance {
        self.ft.storage_deposit(account_id, registration_only)
    }

    #[payable]
    fn storage_withdraw(&mut self, amount: Option<U128>) -> StorageBalance {
        self.ft.storage_withdraw(amount)
    }

    #[payable]
    fn storage_unregister(&mut self, force: Option<bool>) -> bool {
        self.ft.internal_storage_unregister(force.or(Some(true))).is_some()
    }

    fn storage_balance_bounds(&self) -> StorageBalanceBounds {
        self.ft.storage_balance_bounds()
    }

    fn storage_balance_of(&self, account_id: ValidAccountId) -> Option<StorageBalance> {
        self.ft.storage_balance_of(account_id)
    }
}""")],
    r'''
#[test]
fn no_force() {
    let mut c = new();
    by("ann", 10 * N);
    c.near_deposit();
    by("ann", 1);
    assert!(fails(|| c.storage_unregister(None)));
}
''')

SM = "state-manipulation/src/lib.rs"
bug("C70-trim", "C70", "state-manipulation",
    "a key that ends in a zero byte, next to the one without it",
    "Keys lose their trailing zero bytes, so another entry than the one named goes.",
    [(SM, """        storage_remove(&base64::decode(key).unwrap());""",
      """        let mut raw = base64::decode(key).unwrap();
        while raw.len() > 1 && raw.last() == Some(&0) {
            raw.pop();
        }
        storage_remove(&raw);""")],
    r'''
#[test]
fn zero_byte() {
    put(b"a", b"1");
    put(b"a\0", b"2");
    assert!(call(clean, r#"{"keys":["YQA="]}"#));
    assert_eq!(get(b"a"), Some(b"1".to_vec()));
    assert_eq!(get(b"a\0"), None);
}
''')
bug("C70-skip-bad", "C70", "state-manipulation",
    "an entry with a value that is no base64, among good ones",
    "A malformed entry is passed over and the others are written.",
    [(SM, """        storage_write(
            &base64::decode(key).unwrap(),
            &base64::decode(value).unwrap(),
        );""",
      """        if let (Ok(key), Ok(value)) = (base64::decode(key), base64::decode(value)) {
            storage_write(&key, &value);
        }""")],
    r'''
#[test]
fn malformed() {
    assert!(!call(replace, r#"{"entries":[["YQ==","Yg=="],["YQ==","!"]]}"#));
    assert_eq!(get(b"a"), None);
    assert!(call(replace, r#"{"entries":[["YQ==","Yg=="]]}"#));
    assert_eq!(get(b"a"), Some(b"b".to_vec()));
}
''')
bug("C70-sorted", "C70", "state-manipulation",
    "a key named twice in one call with values in descending order",
    "Entries are written in sorted order, so the last one named for a key need not win.",
    [(SM, """    let args: ReplaceInput = serde_json::from_slice(&input).unwrap();""",
      """    let mut args: ReplaceInput = serde_json::from_slice(&input).unwrap();
    args.entries.sort_unstable();"""),],
    r'''
#[test]
fn last_wins() {
    assert!(call(replace, r#"{"entries":[["YQ==","Yw=="],["YQ==","Yg=="]]}"#));
    assert_eq!(get(b"a"), Some(b"b".to_vec()));
}
''')

# ------------------------------------------------------------------------------------ second batch
bug("C06-fee-division", "C06", "staking-pool",
    "a fee fraction above one and below two",
    "The fee is compared with one after integer division: a fee between one and two is accepted.",
    [(P, """            self.numerator <= self.denominator,""", """            self.numerator / self.denominator <= 1,""")],
    r'''
#[test]
fn at_most_one() {
    assert!(fails(|| pool(150)));
    let mut p = pool(10);
    let bad = RewardFeeFraction { numerator: 11, denominator: 10 };
    assert!(fails(|| p.by("owner", 0).update_reward_fee_fraction(bad)));
    let all = RewardFeeFraction { numerator: 10, denominator: 10 };
    p.by("owner", 0).update_reward_fee_fraction(all);
}
''')
bug("C06-open-callback", "C06", "staking-pool",
    "a contract that makes a failing call and names the pool's stake callback as its continuation, while tokens are locked",
    "The stake callback only asks for a promise result, not for the pool as the caller: anyone can unstake the pool.",
    [(P, """        assert_eq!(
            env::current_account_id(),
            env::predecessor_account_id(),
            "Can be called only as a callback"
        );

        assert_eq!(
            env::promise_results_count(),
            1,
            "Contract expected a result on the callback"
        );""",
      """        assert_eq!(
            env::promise_results_count(),
            1,
            "Can be called only as a callback"
        );""")],
    r'''
#[test]
fn only_the_pool() {
    let mut p = pool(10);
    let mut c = p.ctx("evil", 0);
    c.account_locked_balance = 20 * N;
    enter_with(c, vec![PromiseResult::Failed], HashMap::new());
    let refused = fails(|| p.c.on_stake_action());
    assert!(refused || !receipts().contains("Stake"));
}
''')
bug("C07-key-later", "C07", "staking-pool",
    "a key change in an epoch in which the pool was already used",
    "A new staking key is proposed only with the next stake change.",
    [(P, """        let _need_to_restake = self.internal_ping();
        self.stake_public_key = stake_public_key.into();
        self.internal_restake();""",
      """        let need_to_restake = self.internal_ping();
        self.stake_public_key = stake_public_key.into();
        if need_to_restake {
            self.internal_restake();
        }""")],
    r'''
#[test]
fn new_key_is_proposed() {
    let mut p = pool(10);
    p.epoch += 1;
    p.by("ann", 0).ping();
    let k = "ed25519:3tysLvy7KGoE8pznUgXvSHa4vYyGvrDZFcT8jgb8PEQ6";
    p.by("owner", 0).update_staking_key(Base58PublicKey::try_from(k.to_string()).unwrap());
    assert!(receipts().contains("Stake"), "{}", receipts());
}
''')
bug("C08-page-cap", "C08", "staking-pool",
    "a page of more than fifty accounts",
    "A page holds at most fifty accounts, whatever was asked for.",
    [(P, """        (from_index..std::cmp::min(from_index.saturating_add(limit), keys.len()))""",
      """        // Keep the answer small.
        let limit = std::cmp::min(limit, 50);
        (from_index..std::cmp::min(from_index.saturating_add(limit), keys.len()))""")],
    r'''
#[test]
fn a_long_page() {
    let mut p = pool(10);
    for i in 0..60 {
        p.by(&format!("user{}", i), N).deposit();
    }
    assert_eq!(p.view().get_number_of_accounts(), 60);
    assert_eq!(p.view().get_accounts(0, 60).len(), 60);
    assert_eq!(p.view().get_accounts(5, 55).len(), 55);
}
''')
bug("C05-small-income", "C05", "staking-pool",
    "income of less than a thousandth of a token between two epochs",
    "Small income is booked as seen but not distributed.",
    [(I, """        let total_reward = total_balance - self.last_total_balance;
        if total_reward > 0 {""",
      """        let total_reward = total_balance - self.last_total_balance;
        if total_reward > STAKE_SHARE_PRICE_GUARANTEE_FUND {""")],
    r'''
#[test]
fn every_yocto() {
    let mut p = pool(0);
    p.by("bob", 10 * N).deposit_and_stake();
    let before = p.total();
    p.epoch += 1;
    p.liquid += 500_000_000_000;
    p.by("ann", 0).ping();
    assert_eq!(p.total(), before + 500_000_000_000);
}
''')
bug("C22-second-part", "C22", "lockup",
    "a termination whose unvested tokens are withdrawn in two or more parts",
    "Of tokens withdrawn by termination in several parts only the last is remembered: the rest counts as still locked.",
    [(FC, """            self.lockup_information.termination_withdrawn_tokens += amount.0;""",
      """            self.lockup_information.termination_withdrawn_tokens = amount.0;""")],
    r'''
#[test]
fn all_parts_count() {
    // Vested over 200 days, released over 400.
    let mut l = new(0, Some(T0), enabled(T0 - DAY), Some(schedule(T0, T0, T0 + 200 * DAY)), Some(400 * DAY));
    l.now = T0 + 100 * DAY;
    l.select("pool");
    l.stake(700 * N);
    l.by("near").terminate_vesting(None);
    // 500 unvested, about 300 here: first what is here, then the rest.
    l.cb(true);
    { l.by("near").termination_prepare_to_withdraw(); }
    { l.cb(true).on_get_account_staked_balance_to_unstake(0.into()); }
    { l.by("near").termination_prepare_to_withdraw(); }
    { l.cb(true).on_get_account_unstaked_balance_to_withdraw(0.into()); }
    { l.by("near").termination_withdraw("near".to_string()); }
    let first = l.balance - 35 * N / 10;
    l.balance -= first;
    l.cb(true).on_withdraw_unvested_amount(first.into(), "near".to_string());
    l.balance += 700 * N;
    let rest = l.view().get_terminated_unvested_balance().0;
    assert_eq!(rest, 500 * N - first);
    { l.by("near").termination_withdraw("near".to_string()); }
    l.balance -= rest;
    l.cb(true).on_withdraw_unvested_amount(rest.into(), "near".to_string());
    // 750 not released, 500 of them gone with the foundation
    assert_eq!(l.view().get_locked_amount().0, 250 * N);
}
''')
bug("C24-unselect-dust", "C24", "lockup",
    "unselecting a pool with a remembered deposit of less than a token",
    "A pool with a small remembered deposit can be unselected: the lockup forgets those tokens.",
    [(O, """        assert_eq!(
            self.staking_information.as_ref().unwrap().deposit_amount.0,
            0,""", """        assert_eq!(
            // Less than a token may be left.
            self.staking_information.as_ref().unwrap().deposit_amount.0
                / 1_000_000_000_000_000_000_000_000,
            0,""")],
    r'''
#[test]
fn nothing_is_left() {
    let mut l = new(0, Some(T0), enabled(T0 - DAY), None, None);
    l.select("pool");
    l.stake(N / 2);
    assert!(fails(|| l.by("owner").unselect_staking_pool()));
    assert_eq!(l.known(), N / 2);
}
''')
bug("C50-reversed", "C50", "multisig2",
    "a request of several actions whose order matters",
    "The actions of a request are taken from its end: they are issued in reverse order.",
    [(M2, """        for action in request.actions {
            promise = match action {""",
      """        let mut actions = request.actions;
        while let Some(action) = actions.pop() {
            promise = match action {""")],
    r'''
#[test]
fn as_submitted() {
    let mut c = new(vec![member("ann"), member("bob")], 1);
    by("ann", 0);
    c.add_request_and_confirm(req("bob", json!([{"type": "Transfer", "amount": "777"}, {"type": "Transfer", "amount": "888"}])));
    let r = format!("{:?}", get_created_receipts());
    assert!(r.find("777").unwrap() < r.find("888").unwrap(), "{}", r);
}
''')
bug("C53-batched-limit", "C53", "multisig",
    "a request that changes the limit together with another action",
    "A limit change may come with other actions, which are then dropped.",
    [(M1, """                MultiSigRequestAction::SetActiveRequestsLimit {
                    active_requests_limit,
                } => {
                    self.assert_one_action_only(receiver_id, num_actions);""",
      """                MultiSigRequestAction::SetActiveRequestsLimit {
                    active_requests_limit,
                } => {
                    self.assert_self_request(receiver_id);""")],
    r'''
#[test]
fn a_separate_request() {
    by(1, 0);
    let mut c = MultiSigContract::new(1);
    let q = req("multi", json!([{"type": "SetActiveRequestsLimit", "active_requests_limit": 3}, {"type": "Transfer", "amount": "777"}]));
    assert!(fails(|| { c.add_request_and_confirm(q); }));
}
''')
bug("C71-own-init", "C71", "voting",
    "a second initialisation sent from the voting account itself",
    "The account itself may initialise the contract again: standing votes are lost and a result can come twice.",
    [(V, """        assert!(!env::state_exists(), "The contract is already initialized");""",
      """        assert!(
            !env::state_exists() || env::predecessor_account_id() == env::current_account_id(),
            "The contract is already initialized"
        );""")],
    r'''
#[test]
fn once() {
    at("voting", 1, 5, &[("a1", 10)]);
    let v = VotingContract::new();
    env::state_write(&v);
    at("voting", 1, 5, &[("a1", 10)]);
    assert!(fails(|| { VotingContract::new(); }));
}
''')
bug("C71-poll-name", "C71", "lockup",
    "an initialisation with a transfers poll account whose name is impossible",
    "The name of the poll account is not validated, only that there is one: transfers can never be enabled.",
    [("lockup/src/lib.rs", """                env::is_valid_account_id(transfer_poll_account_id.as_bytes()),""",
      """                !transfer_poll_account_id.is_empty(),""")],
    r'''
#[test]
fn possible_names_only() {
    let bad = TransfersInformation::TransfersDisabled { transfer_poll_account_id: "No Such Poll".to_string() };
    assert!(fails(|| new(0, Some(T0), bad, None, None)));
    new(0, Some(T0), disabled(), None, None);
}
''')
