//! A lockup with its owner, the foundation, real staking pools and whitelist, a voting contract,
//! outsiders, epochs, clock jumps and failing calls.
use super::common::*;
use super::sched::*;
use crate::engine::Env;
use crate::sim::*;
use crate::util::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

const L: &str = "lockup.near";
const OWN: &str = "owner";
const FO: &str = "foundation";
const WL: &str = "whitelist";
const V: &str = "vote.near";
const PX: &str = "px";
const RESERVE: u128 = 3_500_000_000_000_000_000_000_000;
/// More than all rounding of pool shares together.
const TOL: u128 = 1_000_000_000;
const DAY: u64 = 86_400_000_000_000;
const SALT: &[u8] = &[1, 2, 3];
const POOLS: &[&str] = &["pool0", "pool1"];

type Tags = &'static [&'static str];

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Cfg {
    #[serde(with = "dec")]
    amount: u128,
    dur: u64,
    lts: Option<u64>,
    rel: Option<u64>,
    /// None: disabled until the vote
    transfers: Option<u64>,
    /// 0 none, 1 private, 2 explicit
    vest: u8,
    vs: (u64, u64, u64),
    bad_vs: Option<(u64, u64, u64)>,
    fee: u32,
    w_owner: u64,
    w_found: u64,
    w_out: u64,
    w_fault: u64,
    w_time: u64,
    w_epoch: u64,
    w_deliver: u64,
    w_drain: u64,
    w_env: u64,
    w_plan: u64,
    low_gas: u64,
    far: bool,
    /// gas costs nothing
    #[serde(default)]
    free_gas: bool,
}
#[derive(Clone, Debug, PartialEq)]
enum K {
    Deposit(u128, bool),
    Withdraw(u128),
    WithdrawAll,
    Refresh,
    Stake(u128),
    Unstake(u128),
    UnstakeAll,
    Select(String),
    Unselect,
    Vote,
    Transfer(u128, String),
    AddKey(String),
    Terminate(u128),
    PrepUnstake,
    PrepWithdraw,
    TermWithdraw(u128, String),
}
impl K {
    /// Blames for a wrong effect of the operation.
    fn tags(&self) -> Tags {
        match self {
            K::Deposit(..) | K::Withdraw(_) | K::WithdrawAll | K::Refresh | K::Stake(_) | K::Unstake(_) | K::UnstakeAll => &["C23", "C24", "C20", "C27"],
            K::Select(_) | K::Unselect => &["C24", "C27"],
            K::Vote => &["C25"],
            K::Transfer(..) => &["C20", "C24", "C27"],
            K::AddKey(_) => &["C26"],
            _ => &["C22"],
        }
    }
    /// Uses the pool and makes the lockup busy.
    fn busy(&self) -> bool {
        match self {
            K::Select(_) | K::Unselect | K::Vote | K::Transfer(..) | K::AddKey(_) | K::Terminate(_) | K::TermWithdraw(..) => false,
            _ => true,
        }
    }
}
#[derive(Clone, Debug)]
struct Op {
    k: K,
    hop: u32,
    /// the pool's books of the lockup when the pool answered last
    total: u128,
    unstaked: u128,
    staked: u128,
    out: u128,
}
enum Verdict {
    /// reasons to refuse it
    No(Vec<(&'static str, Tags)>),
    Yes(K),
    /// either way is fine
    Any(K),
}
pub struct Lockup {
    cfg: Cfg,
    s: Sched,
    vs: Vs,
    foundation: bool,
    pool: Option<String>,
    known: u128,
    busy: Option<u64>,
    status: &'static str,
    ops: BTreeMap<u64, Op>,
    next_op: u64,
    trace: Trace,
    keys: Vec<Vec<u8>>,
    code: Vec<u8>,
    started: bool,
    plan: VecDeque<Step>,
    n: u64,
    paid: u128,
    taken: u128,
    strays: u128,
    deep: bool,
    prop: String,
    /// balance when the initialisation ran
    initial: Option<u128>,
    /// The next refresh is told less than the pool holds; the lockup dropped the pool believing that.
    lied: bool,
    gone: bool,
    /// The transfers were enabled by a vote.
    voted: bool,
    /// operations in progress that got the documented gas
    paid_gas: BTreeSet<u64>,
    /// the lockup's unstaked and staked tokens in the pool, last seen
    seen: (u128, u128),
}
fn hash_of(v: &Vs) -> String {
    let mut b = vec![];
    for x in &[v.start, v.cliff, v.end] {
        b.extend(&x.to_le_bytes());
    }
    b.extend(&(SALT.len() as u32).to_le_bytes());
    b.extend(SALT);
    base64::encode(sha256(&b))
}
/// Gas the documentation asks for (Tgas).
fn documented(m: &str) -> Option<u64> {
    Some(match m {
        "new" | "unselect_staking_pool" | "terminate_vesting" => 25,
        "transfer" | "add_full_access_key" => 50,
        "select_staking_pool" | "refresh_staking_pool_balance" | "check_transfers_vote" | "termination_withdraw" => 75,
        "deposit_to_staking_pool" => 100,
        "deposit_and_stake" | "withdraw_from_staking_pool" | "stake" | "unstake" | "unstake_all" => 125,
        "withdraw_all_from_staking_pool" | "termination_prepare_to_withdraw" => 175,
        _ => return None,
    })
}
fn vs3(x: (u64, u64, u64)) -> Vs {
    Vs { start: x.0, cliff: x.1, end: x.2 }
}
fn shape(r: &Receipt) -> String {
    let acts: Vec<String> = r
        .actions()
        .iter()
        .map(|a| match a {
            Action::Call { method, args, deposit, .. } => {
                let v: Value = serde_json::from_slice(args).unwrap_or(Value::Null);
                let v = if v == json!({}) { Value::Null } else { v };
                format!("call {} {} {}", method, v, deposit)
            }
            Action::Transfer(d) => format!("transfer {}", d),
            Action::AddKey { pk, perm } => format!("addkey {} {}", pk_text(pk), if let Perm::Full = perm { "full" } else { "restricted" }),
            a => a.name(),
        })
        .collect();
    format!("{}: {}", r.receiver, acts.join(", "))
}
fn amount_of(a: &Value) -> Option<u128> {
    a.get("amount").and_then(|v| v.as_str()).and_then(|v| v.parse().ok())
}
impl Lockup {
    fn terminating(&self) -> bool {
        if let Vest::Term(_) = self.s.vest {
            true
        } else {
            false
        }
    }
    fn unvested_left(&self) -> u128 {
        if let Vest::Term(x) = self.s.vest {
            x
        } else {
            0
        }
    }
    fn free(bal: u128) -> u128 {
        bal.saturating_sub(RESERVE)
    }
    fn liquid(&self, bal: u128, t: u64) -> u128 {
        (bal + self.known).saturating_sub(self.s.locked(t)).min(Self::free(bal))
    }
    fn pool_busy(&self) -> bool {
        self.busy.is_some()
    }
    fn judge(&self, ev: &Exec, bal: u128) -> Verdict {
        let m = ev.receipt.method().unwrap();
        let who = &ev.receipt.predecessor;
        let a = args_json(&ev.receipt);
        let t = ev.time;
        let mut no: Vec<(&'static str, Tags)> = vec![];
        let mut bad = |c: bool, why: &'static str, tags: Tags| {
            if c {
                no.push((why, tags));
            }
        };
        let term = self.terminating();
        let amt = amount_of(&a);
        let mut soft = false;
        let k = match m {
            "select_staking_pool" => {
                bad(who != OWN, "not_owner", &["C24"]);
                bad(self.pool.is_some(), "pool_already_selected", &["C24", "C20"]);
                bad(term, "terminating", &["C24", "C22"]);
                let p = s(&a["staking_pool_account_id"]);
                soft = !valid_account_id(&p);
                K::Select(p)
            }
            "unselect_staking_pool" => {
                bad(who != OWN, "not_owner", &["C24"]);
                bad(self.pool.is_none(), "no_pool", &["C24"]);
                bad(self.pool_busy(), "busy", &["C24", "C23"]);
                bad(term, "terminating", &["C24", "C22"]);
                bad(self.known > 0, "deposit_left", &["C24", "C23", "C27"]);
                K::Unselect
            }
            "deposit_to_staking_pool" | "deposit_and_stake" | "refresh_staking_pool_balance" | "withdraw_from_staking_pool"
            | "withdraw_all_from_staking_pool" | "stake" | "unstake" | "unstake_all" => {
                bad(who != OWN, "not_owner", &["C24"]);
                bad(self.pool.is_none(), "no_pool", &["C24"]);
                bad(self.pool_busy(), "busy", &["C24", "C23"]);
                bad(term, "terminating", &["C24", "C22"]);
                let needs = match m {
                    "refresh_staking_pool_balance" | "withdraw_all_from_staking_pool" | "unstake_all" => false,
                    _ => true,
                };
                bad(needs && amt.is_none(), "bad_amount", &["C23"]);
                let x = amt.unwrap_or(0);
                soft = needs && x == 0;
                match m {
                    "deposit_to_staking_pool" | "deposit_and_stake" => {
                        bad(x > Self::free(bal), "over_balance", &["C20"]);
                        K::Deposit(x, m == "deposit_and_stake")
                    }
                    "refresh_staking_pool_balance" => K::Refresh,
                    "withdraw_from_staking_pool" => K::Withdraw(x),
                    "withdraw_all_from_staking_pool" => K::WithdrawAll,
                    "stake" => K::Stake(x),
                    "unstake" => K::Unstake(x),
                    _ => K::UnstakeAll,
                }
            }
            "check_transfers_vote" => {
                bad(who != OWN, "not_owner", &["C24", "C25"]);
                bad(self.s.transfers.is_some(), "transfers_already_enabled", &["C25"]);
                soft = term;
                K::Vote
            }
            "transfer" => {
                bad(who != OWN, "not_owner", &["C24", "C20"]);
                bad(self.s.transfers.is_none(), "transfers_disabled", &["C20", "C25"]);
                bad(self.pool_busy(), "busy", &["C20", "C24"]);
                bad(term, "terminating", &["C20", "C22"]);
                bad(amt.is_none(), "bad_amount", &["C20"]);
                let x = amt.unwrap_or(0);
                bad(x > self.liquid(bal, t), "over_liquid", &["C20"]);
                let to = s(&a["receiver_id"]);
                bad(!valid_account_id(&to), "bad_receiver", &["C20"]);
                soft = x == 0;
                K::Transfer(x, to)
            }
            "add_full_access_key" => {
                bad(who != OWN, "not_owner", &["C24", "C26"]);
                bad(self.s.transfers.is_none(), "transfers_disabled", &["C26"]);
                bad(self.pool_busy(), "busy", &["C26"]);
                bad(term, "terminating", &["C26"]);
                bad(self.s.locked(t) > 0, "still_locked", &["C26"]);
                K::AddKey(s(&a["new_public_key"]))
            }
            "terminate_vesting" => {
                bad(!self.foundation || who != FO, "not_foundation", &["C22"]);
                let given = &a["vesting_schedule_with_salt"];
                let vs = match &self.s.vest {
                    Vest::Hash => {
                        let ok = Vs::of(&given["vesting_schedule"]) == Some(self.vs)
                            && base64::decode(given["salt"].as_str().unwrap_or("?")).ok() == Some(SALT.to_vec());
                        bad(!ok, "wrong_schedule", &["C22"]);
                        self.vs
                    }
                    Vest::Plain(v) => {
                        soft = !given.is_null();
                        *v
                    }
                    _ => {
                        bad(true, "nothing_to_terminate", &["C22"]);
                        self.vs
                    }
                };
                let x = vs.unvested(self.s.amount, t);
                bad(x == 0, "all_vested", &["C22"]);
                K::Terminate(x)
            }
            "termination_prepare_to_withdraw" => {
                bad(!self.foundation || who != FO, "not_foundation", &["C22"]);
                bad(!term, "not_terminating", &["C22"]);
                bad(self.pool.is_none(), "no_pool", &["C22"]);
                bad(self.pool_busy(), "busy", &["C22", "C24"]);
                match self.status {
                    "VestingTerminatedWithDeficit" => K::PrepUnstake,
                    "EverythingUnstaked" => K::PrepWithdraw,
                    _ => {
                        bad(true, "wrong_stage", &["C22"]);
                        K::PrepUnstake
                    }
                }
            }
            "termination_withdraw" => {
                bad(!self.foundation || who != FO, "not_foundation", &["C22"]);
                bad(!term || self.status != "ReadyToWithdraw", "wrong_stage", &["C22"]);
                let to = s(&a["receiver_id"]);
                bad(!valid_account_id(&to), "bad_receiver", &["C22"]);
                let x = self.unvested_left().min(Self::free(bal));
                soft = x == 0;
                K::TermWithdraw(x, to)
            }
            "new" => {
                bad(true, "reinitialised", &["C20", "C21", "C22", "C24"]);
                K::Unselect
            }
            "on_get_result_from_transfer_poll" => {
                bad(true, "forged_callback", &["C24", "C25"]);
                K::Unselect
            }
            m => {
                let f = m.contains("terminat") || m.contains("unstake_") || m.contains("unvested") || m.ends_with("_to_withdraw");
                bad(true, "forged_callback", if f { &["C22", "C24"] } else { &["C24", "C23", "C20"] });
                K::Unselect
            }
        };
        if !no.is_empty() {
            Verdict::No(no)
        } else if soft {
            Verdict::Any(k)
        } else {
            Verdict::Yes(k)
        }
    }
    /// What must leave the lockup when an operation is accepted (None: a pool view, any).
    fn first(&self, k: &K) -> Vec<String> {
        let pool = self.pool.clone().unwrap_or_default();
        let c = |to: &str, m: &str, a: Value, d: u128| vec![format!("{}: call {} {} {}", to, m, a, d)];
        let am = |x: u128| json!({ "amount": x.to_string() });
        match k {
            K::Deposit(x, st) => c(&pool, if *st { "deposit_and_stake" } else { "deposit" }, Value::Null, *x),
            K::Withdraw(x) => c(&pool, "withdraw", am(*x), 0),
            K::Stake(x) => c(&pool, "stake", am(*x), 0),
            K::Unstake(x) => c(&pool, "unstake", am(*x), 0),
            K::UnstakeAll => c(&pool, "unstake_all", Value::Null, 0),
            K::WithdrawAll | K::Refresh | K::PrepUnstake | K::PrepWithdraw => vec![format!("{}: view", pool)],
            K::Select(p) => c(WL, "is_whitelisted", json!({ "staking_pool_account_id": p }), 0),
            K::Vote => c(V, "get_result", Value::Null, 0),
            K::Transfer(x, to) | K::TermWithdraw(x, to) => vec![format!("{}: transfer {}", to, x)],
            K::AddKey(pk) => vec![format!("{}: addkey {} full", L, pk)],
            K::Unselect | K::Terminate(_) => vec![],
        }
    }
    fn sent(ev: &Exec) -> Vec<String> {
        let mut v = vec![];
        for r in ev.sent() {
            if r.receiver == L && r.method().is_some() && r.deposit() == 0 {
                continue;
            }
            let m = r.method().unwrap_or("");
            if m.starts_with("get_account_") && r.deposit() == 0 && r.actions().len() == 1 && POOLS.contains(&&r.receiver[..]) {
                v.push(format!("{}: view", r.receiver));
            } else {
                v.push(shape(r));
            }
        }
        v
    }
    fn check_sent(&self, o: &mut Out, ev: &Exec, want: Vec<String>, tags: Tags, what: &str) {
        let got = Self::sent(ev);
        let key = got.iter().any(|g| !want.contains(g) && (g.contains("key") || g.contains("deploy") || g.contains("delete") || g.contains("stake_")));
        if key {
            o.fail(&["C26"], "key_or_code", format!("{}: sent {:?}, expected {:?}", what, got, want));
        }
        o.check(got == want, tags, "sent", || format!("{}: sent {:?}, expected {:?}", what, got, want));
    }
    fn begin(&mut self, ev: &Exec, k: K, bal: u128) {
        match &k {
            K::Unselect => {
                self.pool = None;
                self.gone |= self.lied;
                self.lied = false;
            }
            K::Terminate(x) => {
                self.s.vest = Vest::Term(*x);
                self.status = if *x > Self::free(bal) && self.pool.is_some() { "VestingTerminatedWithDeficit" } else { "ReadyToWithdraw" };
            }
            _ => {
                let id = self.next_op;
                self.next_op += 1;
                self.trace.add(id, ev);
                if k.busy() {
                    self.busy = Some(id);
                }
                match k {
                    K::PrepUnstake => self.status = "UnstakingInProgress",
                    K::PrepWithdraw => self.status = "WithdrawingFromStakingPoolInProgress",
                    K::TermWithdraw(..) => self.status = "WithdrawingFromAccountInProgress",
                    _ => {}
                }
                if documented(ev.receipt.method().unwrap_or("")).map_or(false, |g| ev.receipt.gas() >= g * TGAS) {
                    self.paid_gas.insert(id);
                }
                self.ops.insert(id, Op { k, hop: 0, total: 0, unstaked: 0, staked: 0, out: 0 });
            }
        }
    }
    /// A callback of operation `id` runs on the lockup.
    fn step(&mut self, o: &mut Out, ev: &Exec, id: u64, what: &str) {
        let mut op = self.ops[&id].clone();
        let pool = self.pool.clone().unwrap_or_default();
        let good = ev.results.len() == 1 && ev.results[0] != PromiseResultC::Failed;
        let val: Option<Value> = match ev.results.get(0) {
            Some(PromiseResultC::Ok(b)) => serde_json::from_slice(b).ok(),
            _ => None,
        };
        let tags = op.k.tags();
        let mut want = vec![];
        let mut more = false;
        let call = |m: &str, x: u128| format!("{}: call {} {} 0", pool, m, json!({ "amount": x.to_string() }));
        let mut must = true;
        match op.k.clone() {
            K::Deposit(x, _) => {
                if good {
                    self.known += x;
                }
            }
            K::Withdraw(x) => {
                if good {
                    self.known = self.known.saturating_sub(x);
                }
            }
            K::Refresh => {
                // exactly what the pool said
                if let (true, Some(v)) = (good, val.as_ref().and_then(u)) {
                    if v == op.total {
                        self.lied = false;
                    } else {
                        o.count("refresh_below_known");
                    }
                    self.known = v;
                }
            }
            K::WithdrawAll => {
                if op.hop == 0 {
                    if op.unstaked > 0 {
                        op.out = op.unstaked;
                        want.push(call("withdraw", op.out));
                        more = true;
                    }
                } else if good {
                    self.known = self.known.saturating_sub(op.out);
                }
            }
            K::PrepUnstake => {
                if op.hop == 0 && op.staked > 0 {
                    want.push(call("unstake", op.staked));
                    more = true;
                } else {
                    self.status = if op.hop == 0 || good { "EverythingUnstaked" } else { "VestingTerminatedWithDeficit" };
                }
            }
            K::PrepWithdraw => {
                if op.hop == 0 && op.unstaked > 0 {
                    op.out = op.unstaked;
                    want.push(call("withdraw", op.out));
                    more = true;
                } else {
                    if op.hop > 0 && good {
                        self.known = self.known.saturating_sub(op.out);
                    }
                    self.status = if op.hop == 0 || good { "ReadyToWithdraw" } else { "EverythingUnstaked" };
                }
            }
            K::TermWithdraw(x, _) => {
                self.status = "ReadyToWithdraw";
                if good {
                    self.taken += x;
                    self.s.withdrawn += x;
                    let left = self.unvested_left().saturating_sub(x);
                    if left > 0 {
                        self.s.vest = Vest::Term(left);
                    } else {
                        self.s.vest = Vest::None;
                        self.foundation = false;
                        o.count("termination_completed");
                    }
                } else {
                    o.count("termination_withdraw_failed");
                }
            }
            K::Select(p) => {
                must = false;
                if val == Some(json!(true)) && self.pool.is_none() && !self.terminating() {
                    must = true;
                    self.pool = Some(p);
                    self.known = 0;
                    o.count("pool_selected");
                }
            }
            K::Vote => {
                must = good && val == Some(Value::Null);
                if let Some(ts) = val.as_ref().and_then(|v| v.as_str()).and_then(|v| v.parse::<u64>().ok()) {
                    must = false;
                    if self.s.transfers.is_none() {
                        must = true;
                        self.s.transfers = Some(ts);
                        self.voted = true;
                        o.count("transfers_enabled");
                    }
                }
                if self.s.transfers.is_some() && !good {
                    must = false;
                }
            }
            K::Stake(_) | K::Unstake(_) | K::UnstakeAll => {}
            _ => must = false,
        }
        if op.k.busy() && !more {
            o.count(if good { "pool_op_ok" } else { "pool_op_failed" });
        }
        o.check(ev.ok || !must, tags, "callback_failed", || format!("{} of {:?} failed: {}", what, op.k, ev.err));
        // unstaking everything in one call is as good
        let all = format!("{}: call unstake_all null 0", pool);
        if !(op.k == K::PrepUnstake && more && Self::sent(ev) == vec![all]) {
            self.check_sent(o, ev, want, tags, what);
        }
        if more {
            op.hop += 1;
            self.ops.insert(id, op);
        } else {
            self.ops.remove(&id);
            if self.busy == Some(id) {
                self.busy = None;
            }
        }
    }
    fn at(&mut self, w: &mut World, o: &mut Out, what: &str) {
        let t = w.time;
        let bal = w.amount(L);
        let n = |w: &mut World, m: &str, a: Value| w.vu(L, m, a);
        let lock = self.s.locked(t);
        let vsa = json!({ "vesting_schedule": self.vs.json() });
        let unv = match &self.s.vest {
            Vest::None => 0,
            Vest::Term(x) => *x,
            _ => self.vs.unvested(self.s.amount, t),
        };
        let q = |o: &mut Out, got: Option<u128>, want: u128, tags: Tags, kind: &str, s: &Sched| {
            o.check(got == Some(want), tags, kind, || format!("{} at {}: {} is {:?}, expected {} ({:?})", what, t, kind, got, want, s));
        };
        // after a termination the schedule goes on as documented
        let tags: Tags = match (self.voted, self.s.withdrawn > 0) {
            (true, true) => &["C21", "C20", "C25", "C22"],
            (true, false) => &["C21", "C20", "C25"],
            (false, true) => &["C21", "C20", "C22"],
            _ => &["C21", "C20"],
        };
        q(o, n(w, "get_locked_amount", json!({})), lock, tags, "locked", &self.s);
        q(o, n(w, "get_unvested_amount", vsa.clone()), unv, &["C21"], "unvested", &self.s);
        if lock >= unv {
            q(o, n(w, "get_locked_vested_amount", vsa), lock - unv, &["C21"], "locked_vested", &self.s);
        }
        q(o, n(w, "get_owners_balance", json!({})), (bal + self.known).saturating_sub(lock), &["C21"], "owners", &self.s);
        let li = self.liquid(bal, t);
        q(o, n(w, "get_liquid_owners_balance", json!({})), li, &["C21", "C20"], "liquid", &self.s);
    }
    fn views(&mut self, w: &mut World, o: &mut Out, what: &str) {
        let bal = w.amount(L);
        self.n += 1;
        let p = w.vj(L, "get_staking_pool_account_id", json!({}));
        let want = self.pool.as_ref().map_or(Value::Null, |p| json!(p));
        o.check(p.as_ref() == Some(&want), &["C24"], "pool", || format!("{}: pool {:?}, expected {}", what, p, want));
        let ow = w.vj(L, "get_owner_account_id", json!({}));
        o.check(ow == Some(json!(OWN)), &["C24"], "owner", || format!("{}: owner {:?}", what, ow));
        let k = w.vu(L, "get_known_deposited_balance", json!({}));
        let known = self.known;
        o.check(k == Some(known), &["C23", "C20"], "known", || format!("{}: known deposit {:?}, expected {}", what, k, known));
        let gb = w.vu(L, "get_balance", json!({}));
        o.check(gb == Some(bal + known), &["C23"], "balance", || format!("{}: balance {:?}, expected {}", what, gb, bal + known));
        let st = w.vj(L, "get_termination_status", json!({}));
        let want = if self.terminating() { json!(self.status) } else { Value::Null };
        o.check(st.as_ref() == Some(&want), &["C22"], "status", || format!("{}: termination status {:?}, expected {}", what, st, want));
        let un = w.vu(L, "get_terminated_unvested_balance", json!({}));
        let left = self.unvested_left();
        o.check(un == Some(left), &["C22"], "terminated", || format!("{}: terminated unvested {:?}, expected {}", what, un, left));
        let de = w.vu(L, "get_terminated_unvested_balance_deficit", json!({}));
        let want = left.saturating_sub(Self::free(bal));
        o.check(de == Some(want), &["C22"], "deficit", || format!("{}: deficit {:?}, expected {}", what, de, want));
        let te = w.vj(L, "are_transfers_enabled", json!({}));
        let want = self.s.transfers.is_some();
        o.check(te == Some(json!(want)), &["C25"], "transfers", || format!("{}: transfers {:?}, expected {}", what, te, want));
        let vi = w.vj(L, "get_vesting_information", json!({}));
        let want = match &self.s.vest {
            Vest::None => json!("None"),
            Vest::Hash => json!({ "VestingHash": hash_of(&self.vs) }),
            Vest::Plain(v) => json!({ "VestingSchedule": v.json() }),
            Vest::Term(x) => json!({"Terminating": {"unvested_amount": st2(*x), "status": self.status}}),
        };
        o.check(vi.as_ref() == Some(&want), &["C21", "C22"], "vesting", || format!("{}: vesting {:?}, expected {}", what, vi, want));
        self.at(w, o, what);
        // the schedule at its boundaries, and somewhere in between
        let inst = self.s.instants(Some(self.vs));
        let more = if self.deep { 3 } else { 1 };
        let now = w.time;
        for j in 0..more {
            let h = hash64(&(self.n * 31 + j).to_le_bytes());
            let t = if h % 4 == 0 || inst.is_empty() { now.saturating_add((h >> 8) % (6 * 365 * DAY)) } else { inst[(h >> 8) as usize % inst.len()] };
            w.time = t;
            self.at(w, o, "a view");
            w.time = now;
        }
        // keys and code
        let (code, keys) = w.accounts.get(L).map_or((None, vec![]), |a| (a.code.as_ref().map(|c| c.hash.clone()), a.keys.keys().cloned().collect()));
        o.check(code.as_ref() == Some(&self.code), &["C26"], "code", || format!("{}: the code changed", what));
        let want: Vec<_> = self.keys.clone();
        let mut sorted = want.clone();
        sorted.sort();
        o.check(keys == sorted, &["C26"], "keys", || format!("{}: keys {:?}, expected {:?}", what, keys, sorted));
    }
    fn pool_total(w: &mut World, pool: &str) -> u128 {
        w.vu(pool, "get_account_total_balance", json!({ "account_id": L })).unwrap_or(0)
    }
    /// Instants of interest still to come.
    fn future(&self, now: u64) -> Vec<u64> {
        self.s.instants(Some(self.vs)).into_iter().filter(|t| *t > now + 2_000_000_000 && *t < now + 20 * 365 * DAY).collect()
    }
    fn owner_step(&self, w: &World, r: &mut Rng) -> (String, Value) {
        let bal = w.amount(L);
        let t = w.time + 1_000_000_000;
        let pick = |r: &mut Rng, x: u128| match r.below(14) {
            0 => x + 1,
            1 => x.saturating_add(r.amount(1000 * NEAR)),
            2 if r.chance(1, 8) => u128::MAX - r.below(2) as u128,
            3 if r.chance(1, 6) => 0,
            4 | 5 => x.max(1),
            _ => r.amount(x).max(1),
        };
        let am = |x: u128| json!({ "amount": x.to_string() });
        let pool = self.pool.clone();
        let (un, stk) = self.seen;
        let to = r.pick(&["alice", "alice", "owner", "bob", "bob", "ghost.near", "a", "Bad!"]).to_string();
        let wt = if pool.is_none() { [30, 1, 2, 2, 1, 1, 1, 1, 1, 1, 6, 14, 5] } else { [2, 6, 9, 14, 6, 8, 8, 6, 8, 8, 6, 14, 5] };
        match r.weighted(&wt) {
            0 => ("select_staking_pool".into(), json!({ "staking_pool_account_id": *r.pick(&["pool0", "pool0", "pool1", "evil", "ghost.near", "Bad!"]) })),
            1 => ("unselect_staking_pool".into(), json!({})),
            2 => ("deposit_to_staking_pool".into(), am(pick(r, Self::free(bal)))),
            3 => ("deposit_and_stake".into(), am(pick(r, Self::free(bal)))),
            4 => ("refresh_staking_pool_balance".into(), json!({})),
            5 => ("withdraw_from_staking_pool".into(), am(pick(r, un))),
            6 => ("withdraw_all_from_staking_pool".into(), json!({})),
            7 => ("stake".into(), am(pick(r, un))),
            8 => ("unstake".into(), am(pick(r, stk))),
            9 => ("unstake_all".into(), json!({})),
            10 => ("check_transfers_vote".into(), json!({})),
            11 => {
                let li = self.liquid(bal, t);
                let x = if li == 0 && r.chance(1, 2) { r.amount(bal) } else { pick(r, li) };
                ("transfer".into(), json!({"amount": x.to_string(), "receiver_id": to}))
            }
            _ => ("add_full_access_key".into(), json!({ "new_public_key": pk_str(*r.pick(&["k1", "k2", "owner"])) })),
        }
    }
    fn reveal(&self, r: &mut Rng) -> Value {
        let right = json!({"vesting_schedule": self.vs.json(), "salt": base64::encode(SALT)});
        match (&self.s.vest, r.below(8)) {
            (Vest::Hash, 0) => Value::Null,
            (Vest::Hash, 1) => json!({"vesting_schedule": self.vs.json(), "salt": base64::encode(&[1, 2, 4])}),
            (Vest::Hash, 2) => {
                let v = Vs { cliff: self.vs.cliff + DAY, end: self.vs.end + DAY, ..self.vs };
                json!({"vesting_schedule": v.json(), "salt": base64::encode(SALT)})
            }
            (Vest::Hash, _) => right,
            (_, 0) => right,
            _ => Value::Null,
        }
    }
    fn gas_for(&self, m: &str, r: &mut Rng) -> u64 {
        if r.chance(if self.prop == "C28" { 60 } else { 10 }, 100) {
            if let Some(g) = documented(m) {
                return g * TGAS;
            }
        }
        gas(r, self.cfg.low_gas)
    }
    fn foundation_step(&self, r: &mut Rng) -> (String, Value) {
        let to = r.pick(&["alice", "alice", FO, "bob", "ghost.near", "Bad!"]).to_string();
        let w = if self.terminating() { [1, 8, 8] } else { [10, 1, 1] };
        match r.weighted(&w) {
            0 => ("terminate_vesting".into(), json!({ "vesting_schedule_with_salt": self.reveal(r) })),
            1 => ("termination_prepare_to_withdraw".into(), json!({})),
            _ => ("termination_withdraw".into(), json!({ "receiver_id": to })),
        }
    }
    fn rewards(&self, w: &World, r: &mut Rng) -> Vec<(String, u128)> {
        let mut v = vec![];
        for p in POOLS {
            if r.chance(2, 3) {
                let lo = w.accounts[*p].locked;
                let x = match r.below(4) {
                    0 => lo / 4000,
                    1 => r.amount(lo / 20),
                    2 => r.amount(lo),
                    _ => 0,
                };
                if x > 0 {
                    v.push((p.to_string(), x));
                }
            }
        }
        v
    }
    fn make_plan(&mut self, w: &World, r: &mut Rng) {
        let mut p: Vec<Step> = vec![];
        let call = |m: &str, a: Value| tx(OWN, L, m, a, 0, FULL_GAS);
        let fo = |m: &str, a: Value| tx(FO, L, m, a, 0, FULL_GAS);
        let (now, bal) = (w.time, w.amount(L));
        let kind = match r.below(8) {
            6 if self.s.transfers.is_some() || self.terminating() => 5,
            7 if !self.foundation || self.terminating() || self.known > 0 || self.vs.unvested(self.s.amount, now) != self.s.amount => 4,
            k => k,
        };
        match kind {
            0 | 1 => {
                // something right at a boundary of the schedules
                let f = self.future(w.time);
                if f.is_empty() || !w.quiescent() {
                    return;
                }
                let i = r.below(f.len() as u64) as usize;
                p.push(Step::Time { ns: f[i.min(5)] - w.time - 1_000_000_000 });
                let term = r.chance(1, 4) && self.foundation && !self.terminating();
                if term {
                    p.push(fo("terminate_vesting", json!({ "vesting_schedule_with_salt": self.reveal(r) })));
                } else if r.chance(1, 4) {
                    p.push(call("add_full_access_key", json!({ "new_public_key": pk_str("k1") })));
                } else {
                    // what will be liquid then, exactly or one more
                    let x = self.liquid(w.amount(L), f[i.min(5)]) + r.below(2) as u128;
                    p.push(call("transfer", json!({"amount": x.to_string(), "receiver_id": "alice"})));
                }
                p.push(Step::Drain);
            }
            2 => {
                // a round through the pool
                if self.pool.is_none() {
                    p.push(call("select_staking_pool", json!({ "staking_pool_account_id": "pool0" })));
                    p.push(Step::Drain);
                }
                let x = Self::free(w.amount(L));
                let x = if r.chance(1, 2) { x } else { r.amount(x) };
                p.push(call("deposit_and_stake", json!({ "amount": x.to_string() })));
                p.push(Step::Drain);
                for _ in 0..r.below(3) {
                    p.push(epoch_step(self.rewards(w, r), vec![]));
                }
                if r.chance(1, 2) {
                    p.push(call("refresh_staking_pool_balance", json!({})));
                    p.push(Step::Drain);
                }
            }
            3 => {
                if self.pool.is_none() {
                    return;
                }
                p.push(Step::Drain);
                p.push(call("unstake_all", json!({})));
                p.push(Step::Drain);
                for _ in 0..r.range(3, 5) {
                    p.push(epoch_step(self.rewards(w, r), vec![]));
                }
                p.push(call("withdraw_all_from_staking_pool", json!({})));
                if r.chance(1, 2) {
                    p.push(Step::Drain);
                    if r.chance(1, 2) {
                        p.push(call("refresh_staking_pool_balance", json!({})));
                        p.push(Step::Drain);
                    }
                    p.push(call("unselect_staking_pool", json!({})));
                }
            }
            4 => {
                // termination from one end to the other
                if !self.foundation {
                    return;
                }
                if !self.terminating() {
                    let a = match self.s.vest {
                        Vest::Hash => json!({"vesting_schedule": self.vs.json(), "salt": base64::encode(SALT)}),
                        _ => Value::Null,
                    };
                    p.push(fo("terminate_vesting", json!({ "vesting_schedule_with_salt": a })));
                    p.push(Step::Drain);
                }
                p.push(fo("termination_prepare_to_withdraw", json!({})));
                p.push(Step::Drain);
                for _ in 0..r.range(3, 5) {
                    p.push(epoch_step(self.rewards(w, r), vec![]));
                }
                p.push(fo("termination_prepare_to_withdraw", json!({})));
                p.push(Step::Drain);
                p.push(fo("termination_withdraw", json!({ "receiver_id": *r.pick(&["alice", "bob", "ghost.near"]) })));
                p.push(Step::Drain);
            }
            6 => {
                // two checks of the vote at once, and the poll changes its mind in between
                let says = |x: u64| Step::Stub { to: V.into(), method: "*".into(), reply: Reply { value: Some(format!("\"{}\"", x)), ..Default::default() } };
                p.push(Step::Drain);
                p.push(says(now - r.below(400) * DAY));
                for _ in 0..2 {
                    p.push(call("check_transfers_vote", json!({})));
                }
                for _ in 0..2 {
                    p.push(Step::Deliver { from: OWN.into(), to: L.into() });
                }
                p.push(Step::Deliver { from: L.into(), to: V.into() });
                p.push(says(now - r.below(400) * DAY));
                p.push(Step::Drain);
            }
            7 => {
                // everything is still unvested, and the foundation takes it all
                let a = match self.s.vest {
                    Vest::Hash => json!({"vesting_schedule": self.vs.json(), "salt": base64::encode(SALT)}),
                    _ => Value::Null,
                };
                p.push(Step::Drain);
                p.push(Step::Send { from: FO.into(), to: L.into(), amount: (self.s.amount + RESERVE).saturating_sub(bal) + r.below128(NEAR) });
                p.push(Step::Drain);
                p.push(fo("terminate_vesting", json!({ "vesting_schedule_with_salt": a })));
                p.push(Step::Drain);
                p.push(fo("termination_withdraw", json!({ "receiver_id": "alice" })));
                p.push(Step::Drain);
                p.push(call("add_full_access_key", json!({ "new_public_key": pk_str("k1") })));
                p.push(call("transfer", json!({"amount": "1", "receiver_id": "alice"})));
                p.push(Step::Drain);
            }
            _ => {
                // two owner operations at once
                let (m, a) = self.owner_step(w, r);
                p.push(call(&m, a));
                let (m, a) = self.owner_step(w, r);
                p.push(call(&m, a));
                p.push(Step::Deliver { from: OWN.into(), to: L.into() });
                p.push(Step::Deliver { from: OWN.into(), to: L.into() });
            }
        }
        self.plan.extend(p);
    }
}
fn st2(x: u128) -> String {
    x.to_string()
}
impl Family for Lockup {
    fn config(r: &mut Rng, prop: &str) -> Value {
        let now: u64 = 1_600_000_000_000_000_000;
        let around = |r: &mut Rng, back: u64, fwd: u64| -> u64 {
            match r.below(5) {
                0 => now - r.below(back) * DAY,
                1 => now + r.below(200) * 1_000_000_000,
                2 => now - back * DAY + r.below((back + fwd) * DAY),
                _ => now + r.below(fwd) * DAY,
            }
        };
        let quick = prop == "C26" || prop == "C27" || r.chance(1, 5);
        let far = !quick && r.chance(1, 25);
        let dur = match r.below(6) {
            0 | 1 | 2 => 0,
            3 => r.below(400) * 1_000_000_000,
            _ if far => u64::MAX - r.below(3) * now,
            _ if quick => r.below(20) * DAY,
            _ => r.below(1000) * DAY,
        };
        let lts = match r.below(4) {
            0 => None,
            1 if quick => Some(around(r, 700, 10)),
            _ => Some(around(r, 700, if quick { 30 } else { 800 })),
        };
        let rel = match r.below(6) {
            0 | 1 => None,
            2 => Some(r.below(1000) * 1_000_000_000),
            3 => Some(*r.pick(&[0, 1, 7, 1_000_000_007])),
            _ if far && r.chance(1, 2) => Some(u64::MAX - r.below(9)),
            _ => Some(r.below(if quick { 40 } else { 1500 }) * DAY + r.below(5)),
        };
        let off = if prop == "C25" { 90 } else { 25 };
        let transfers = if r.chance(off, 100) { None } else { Some(around(r, 900, if quick { 5 } else { 100 })) };
        let vest = if prop == "C22" {
            r.range(1, 2)
        } else if quick && r.chance(1, 2) {
            0
        } else {
            r.below(3)
        } as u8;
        let start = around(r, 900, 100);
        let len = match r.below(4) {
            0 => 1 + r.below(1000) * 1_000_000_000,
            _ => (1 + r.below(if quick { 60 } else { 1600 })) * DAY,
        };
        let cl = match r.below(5) {
            0 => 0,
            1 => len,
            2 => r.below(len + 1),
            _ => len / 4,
        };
        let s0 = start;
        let bad_vs = if r.chance(1, 3) {
            Some(*r.pick(&[(s0, s0, s0), (s0 + 5, s0, s0 + 9), (s0, s0 + 9, s0 + 5), (s0 + 9, s0 + 9, s0), (s0 + 9, s0, s0 + 5), (s0 + 1, s0 + 2, s0)]))
        } else {
            None
        };
        let amount = match r.below(5) {
            0 => RESERVE,
            1 => RESERVE + r.amount(NEAR),
            2 => 5 * NEAR + r.amount(50 * NEAR),
            _ => 5 * NEAR + r.amount(1_000_000 * NEAR),
        };
        let c = Cfg {
            amount,
            dur,
            lts,
            rel,
            transfers,
            vest,
            vs: (start, start + cl, start + len),
            bad_vs,
            fee: *r.pick(&[0, 5, 10, 100]),
            w_owner: *r.pick(&[20, 40, 60]),
            w_found: if vest == 0 { 1 } else if prop == "C22" { *r.pick(&[2, 8, 25]) } else { *r.pick(&[0, 1, 6]) },
            w_out: *r.pick(&[2, 6, 15]),
            w_fault: *r.pick(&[0, 3, 12]),
            w_time: if prop == "C21" { 12 } else { *r.pick(&[2, 6]) },
            w_epoch: *r.pick(&[2, 8, 16]),
            w_deliver: *r.pick(&[15, 40, 70]),
            w_drain: *r.pick(&[5, 20, 60]),
            w_env: *r.pick(&[3, 8]),
            w_plan: *r.pick(&[3, 8, 14]),
            low_gas: *r.pick(&[0, 0, 10, 25]),
            far,
            free_gas: r.chance(1, 4),
        };
        serde_json::to_value(c).unwrap()
    }
    fn setup(env: &Env, prop: &str, cfg: &Value) -> Driver<Self> {
        let cfg: Cfg = serde_json::from_value(cfg.clone()).unwrap();
        let mut w = env.world();
        w.val.min_stake = 0;
        if cfg.free_gas {
            w.cfg.gas_price = 0;
        }
        w.contract(L, cfg.amount, &env.code("lockup"));
        w.contract(WL, 100 * NEAR, &env.code("whitelist"));
        for p in POOLS {
            w.contract(p, 10 * NEAR, &env.code("staking-pool"));
        }
        for u in &[OWN, FO, "eve", "alice", "bob", "deleg", "powner", PX, "evil", V] {
            w.create(u, 100_000_000 * NEAR);
        }
        for x in &[PX, "evil"] {
            w.stubs.insert((x.to_string(), "*".into()), Reply { value: Some("\"7\"".into()), ..Default::default() });
        }
        w.stubs.insert((V.into(), "*".into()), Reply { value: Some("null".into()), ..Default::default() });
        let vs = vs3(cfg.vs);
        let sched = Sched {
            amount: cfg.amount,
            withdrawn: 0,
            lockup_duration: cfg.dur,
            lockup_timestamp: cfg.lts,
            release: cfg.rel,
            transfers: cfg.transfers,
            vest: match cfg.vest {
                0 => Vest::None,
                1 => Vest::Hash,
                _ => Vest::Plain(vs),
            },
        };
        let code = env.code("lockup").hash.clone();
        let f = Lockup {
            s: sched,
            vs,
            foundation: cfg.vest > 0,
            pool: None,
            known: 0,
            busy: None,
            status: "",
            ops: BTreeMap::new(),
            next_op: 1,
            trace: Trace::default(),
            keys: vec![],
            code,
            started: false,
            plan: VecDeque::new(),
            n: 0,
            paid: 0,
            taken: 0,
            strays: 0,
            deep: prop == "C21",
            prop: prop.into(),
            initial: None,
            lied: false,
            gone: false,
            voted: false,
            paid_gas: BTreeSet::new(),
            seen: (0, 0),
            cfg: cfg.clone(),
        };
        let mut d = Driver::new(w, f, prop);
        let mut args = json!({
            "owner_account_id": OWN,
            "lockup_duration": cfg.dur.to_string(),
            "lockup_timestamp": cfg.lts.map(|x| x.to_string()),
            "release_duration": cfg.rel.map(|x| x.to_string()),
            "transfers_information": match cfg.transfers {
                Some(t) => json!({"TransfersEnabled": {"transfers_timestamp": t.to_string()}}),
                None => json!({"TransfersDisabled": {"transfer_poll_account_id": V}}),
            },
            "staking_pool_whitelist_account_id": WL,
        });
        if let Some(b) = cfg.bad_vs {
            let mut a = args.clone();
            a["vesting_schedule"] = json!({ "VestingSchedule": vs3(b).json() });
            a["foundation_account_id"] = json!(FO);
            d.apply(&tx("eve", L, "new", a, 0, FULL_GAS));
            d.apply(&Step::Drain);
            let taken = d.w.vj(L, "get_owner_account_id", json!({})).is_some();
            d.o.check(!taken, &["C21"], "invalid_schedule", || format!("initialised with the impossible vesting schedule {:?}", b));
        }
        if cfg.vest > 0 {
            args["vesting_schedule"] = if cfg.vest == 1 { json!({ "VestingHash": hash_of(&vs) }) } else { json!({ "VestingSchedule": vs.json() }) };
            args["foundation_account_id"] = json!(FO);
        }
        d.apply(&tx("eve", WL, "new", json!({ "foundation_account_id": FO }), 0, FULL_GAS));
        for p in POOLS {
            let a = json!({"owner_id": "powner", "stake_public_key": pk_str(p), "reward_fee_fraction": {"numerator": cfg.fee, "denominator": 100}});
            d.apply(&tx("powner", p, "new", a, 0, FULL_GAS));
            d.apply(&Step::Drain);
            d.apply(&tx(FO, WL, "add_staking_pool", json!({ "staking_pool_account_id": p }), 0, FULL_GAS));
            d.apply(&Step::Drain);
        }
        d.apply(&tx("eve", L, "new", args, 0, FULL_GAS));
        d.apply(&Step::Drain);
        let up = d.w.vj(L, "get_owner_account_id", json!({})) == Some(json!(OWN));
        d.o.check(up || d.o.violations.len() > 0, &["C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27"], "init", || "a valid initialisation failed".into());
        // the amount is what the account held at that moment
        if let Some(a) = d.f.initial.take() {
            d.f.s.amount = a;
        }
        d.f.started = true;
        let Driver { w, f, o, .. } = &mut d;
        f.views(w, o, "after initialisation");
        d
    }
    fn relay(&self) -> Option<&'static str> {
        Some(PX)
    }

    fn watched(&self) -> Vec<String> {
        vec![L.into()]
    }
    fn next(&mut self, w: &mut World, r: &mut Rng, _o: &mut Out) -> Step {
        if let Some(s) = self.plan.pop_front() {
            // sometimes something else gets in between
            if !r.chance(1, 12) {
                return s;
            }
            self.plan.push_front(s);
        }
        let c = self.cfg.clone();
        let q = !w.queues.is_empty();
        let wts = [c.w_owner, c.w_found, c.w_out, if q { c.w_deliver } else { 0 }, if q { c.w_drain } else { 0 }, c.w_epoch, c.w_time, c.w_fault, c.w_env, c.w_plan];
        match r.weighted(&wts) {
            0 => {
                let (m, a) = self.owner_step(w, r);
                let g = self.gas_for(&m, r);
                tx(OWN, L, &m, a, 0, g)
            }
            1 => {
                let (m, a) = self.foundation_step(r);
                let g = self.gas_for(&m, r);
                tx(FO, L, &m, a, 0, g)
            }
            2 => {
                // outsiders, or the owner and the foundation beyond their rights
                let who = r.pick(&["eve", "eve", "alice", OWN, FO]).to_string();
                match r.below(9) {
                    0 | 1 => {
                        let (m, a) = self.owner_step(w, r);
                        let who = r.pick(&["eve", FO, "bob", V]).to_string();
                        tx(&who, L, &m, a, 0, FULL_GAS)
                    }
                    2 => {
                        let (m, a) = self.foundation_step(r);
                        let who = r.pick(&["eve", OWN, "bob", WL]).to_string();
                        tx(&who, L, &m, a, 0, FULL_GAS)
                    }
                    3 => {
                        // a contract that the owner or the foundation happens to use
                        let (m, a) = if r.chance(1, 2) { self.owner_step(w, r) } else { self.foundation_step(r) };
                        script(&who, PX, vec![(L.into(), m, a, "0".into(), 250 * TGAS)], false)
                    }
                    4 => {
                        let mut a = json!({
                            "owner_account_id": who, "lockup_duration": "0", "staking_pool_whitelist_account_id": "evil",
                            "transfers_information": {"TransfersEnabled": {"transfers_timestamp": "1"}},
                        });
                        if r.chance(1, 2) {
                            a["vesting_schedule"] = json!({ "VestingSchedule": self.vs.json() });
                            a["foundation_account_id"] = json!(who);
                        }
                        tx(&who, L, "new", a, 0, FULL_GAS)
                    }
                    _ => {
                        let m = *r.pick(&[
                            "on_whitelist_is_whitelisted",
                            "on_staking_pool_deposit",
                            "on_staking_pool_deposit_and_stake",
                            "on_staking_pool_withdraw",
                            "on_staking_pool_stake",
                            "on_staking_pool_unstake",
                            "on_staking_pool_unstake_all",
                            "on_get_result_from_transfer_poll",
                            "on_get_account_total_balance",
                            "on_get_account_unstaked_balance_to_withdraw_by_owner",
                            "on_get_account_staked_balance_to_unstake",
                            "on_staking_pool_unstake_for_termination",
                            "on_get_account_unstaked_balance_to_withdraw",
                            "on_staking_pool_withdraw_for_termination",
                            "on_withdraw_unvested_amount",
                        ]);
                        let x = r.amount(w.amount(L));
                        let a = json!({"amount": x.to_string(), "staking_pool_account_id": "evil", "receiver_id": "eve"});
                        let v = match m {
                            "on_whitelist_is_whitelisted" => "true".to_string(),
                            "on_get_result_from_transfer_poll" => format!("\"{}\"", w.time - r.below(900) * DAY),
                            _ => format!("\"{}\"", x),
                        };
                        match r.below(8) {
                            0 => tx(&who, L, m, a, 0, FULL_GAS),
                            1 => forge(&who, PX, L, m, a, None),
                            _ => forge(&who, PX, L, m, a, Some(&v)),
                        }
                    }
                }
            }
            3 => pick_channel(w, r).unwrap(),
            4 => Step::Drain,
            5 => epoch_step(self.rewards(w, r), if r.chance(1, 10) { vec![r.pick(POOLS).to_string()] } else { vec![] }),
            6 => {
                let f = self.future(w.time);
                let max = if self.prop == "C26" || self.prop == "C27" { 30 } else { 120 };
                if !f.is_empty() && r.chance(1, 4) {
                    Step::Time { ns: f[(r.below(f.len() as u64) as usize).min(4)] - w.time }
                } else {
                    match r.below(3) {
                        0 => Step::Time { ns: r.below(1000) * 1_000_000_000 },
                        _ => Step::Time { ns: r.below(max) * DAY },
                    }
                }
            }
            7 => {
                let p = r.pick(POOLS).to_string();
                match r.below(10) {
                    0 => Step::Fail { to: WL.into(), method: "is_whitelisted".into(), n: 1 },
                    1 => Step::Fail { to: V.into(), method: "get_result".into(), n: 1 },
                    _ => {
                        let p: String = self.pool.clone().unwrap_or(p);
                        if self.pool.is_some() && self.known > 1 && r.chance(1, 8) {
                            // a pool that has lost a part of the deposit, as far as its next report goes
                            self.lied = true;
                            self.plan.push_back(tx(OWN, L, "refresh_staking_pool_balance", json!({}), 0, FULL_GAS));
                            let reply = Reply { scale: Some(*r.pick(&[0, 500, 900, 999])), once: true, ..Default::default() };
                            return Step::Stub { to: p, method: "get_account_total_balance".into(), reply };
                        }
                        let m = *r.pick(&["deposit", "deposit_and_stake", "withdraw", "withdraw", "stake", "unstake", "unstake", "unstake_all"]);
                        Step::Fail { to: p, method: m.into(), n: r.range(1, 2) as u32 }
                    }
                }
            }
            8 => {
                let p = r.pick(&["pool0", "pool1"]).to_string();
                match r.below(9) {
                    0 | 1 => {
                        let v = match r.below(8) {
                            0 => "\"x\"".to_string(),
                            1 => "7".to_string(),
                            2 => "".to_string(),
                            3 | 4 => "null".to_string(),
                            5 => format!("\"{}\"", w.time + r.below(90) * DAY),
                            _ => format!("\"{}\"", w.time - r.below(400) * DAY),
                        };
                        Step::Stub { to: V.into(), method: "*".into(), reply: Reply { value: Some(v), ..Default::default() } }
                    }
                    2 => tx(FO, WL, "add_staking_pool", json!({ "staking_pool_account_id": p }), 0, FULL_GAS),
                    3 => tx(FO, WL, "remove_staking_pool", json!({ "staking_pool_account_id": p }), 0, FULL_GAS),
                    4 => tx("deleg", &p, "deposit_and_stake", json!({}), r.amount(100_000 * NEAR).max(NEAR), FULL_GAS),
                    5 => tx("deleg", &p, *r.pick(&["unstake_all", "withdraw_all", "ping"]), json!({}), 0, FULL_GAS),
                    6 => tx("powner", &p, *r.pick(&["pause_staking", "resume_staking"]), json!({}), 0, FULL_GAS),
                    7 => {
                        if w.exists("bob") {
                            Step::Delete { account: "bob".into(), beneficiary: "alice".into() }
                        } else {
                            Step::Create { account: "bob".into(), amount: 1000 * NEAR }
                        }
                    }
                    _ => {
                        let max = if r.chance(1, 3) { self.cfg.amount } else { NEAR };
                        Step::Send { from: r.pick(&["eve", FO, OWN]).to_string(), to: L.into(), amount: r.amount(max) }
                    }
                }
            }
            _ => {
                self.make_plan(w, r);
                self.plan.pop_front().unwrap_or(Step::Drain)
            }
        }
    }
    fn exec(&mut self, w: &mut World, o: &mut Out, ev: &Exec) {
        let to = ev.receipt.receiver.clone();
        if !self.started {
            if to == L && ev.ok && ev.receipt.method() == Some("new") {
                self.initial = ev.pre.map(|p| p.0);
            }
            return;
        }
        let tagged = self.trace.follow(ev);
        // the documented gas is enough, wherever the call goes
        let own = to == L && (ev.receipt.predecessor == OWN || ev.receipt.predecessor == FO);
        let paid = match (tagged, ev.receipt.method()) {
            (Some(i), _) => self.paid_gas.contains(&i),
            (None, Some(m)) => own && documented(m).map_or(false, |g| ev.receipt.gas() >= g * TGAS),
            _ => false,
        };
        if paid {
            if own {
                o.count("with documented gas");
            }
            o.check(ev.fail != Some(Fail::Gas), &["C28"], "gas", || {
                format!("{} of {} ran out of gas ({} Tgas there): {}", ev.receipt.method().unwrap_or("?"), to, ev.receipt.gas() / TGAS, ev.err)
            });
        }
        let op_of = |f: &Lockup| tagged.and_then(|i| f.ops.get(&i)).map(|x| x.k.clone());
        if to != L {
            if let (Some(i), true) = (tagged, ev.receipt.predecessor == L && POOLS.contains(&&to[..])) {
                let a = json!({ "account_id": L });
                let total = w.vu(&to, "get_account_total_balance", a.clone()).unwrap_or(0);
                let unstaked = w.vu(&to, "get_account_unstaked_balance", a.clone()).unwrap_or(0);
                let staked = w.vu(&to, "get_account_staked_balance", a).unwrap_or(0);
                self.seen = (unstaked, staked);
                if let Some(op) = self.ops.get_mut(&i) {
                    op.total = total;
                    op.unstaked = unstaked;
                    op.staked = staked;
                }
            }
            match op_of(self) {
                Some(K::Transfer(x, t2)) if ev.receipt.predecessor == L && t2 == to => {
                    if ev.ok {
                        self.paid += x;
                    }
                    self.ops.remove(&tagged.unwrap());
                }
                _ => {}
            }
            return;
        }
        if ev.receipt.is_refund() {
            self.views(w, o, "a refund");
            return;
        }
        let m = match ev.receipt.method() {
            Some(m) => m.to_string(),
            None => {
                // plain receipts: tokens coming in, or the key being added
                if let Some(K::AddKey(pk)) = op_of(self) {
                    let new = ev.receipt.actions().iter().any(|a| if let Action::AddKey { pk: p, perm: Perm::Full } = a { pk_text(p) == pk } else { false });
                    o.check(ev.ok || self.keys.iter().any(|k| pk_text(k) == pk), &["C26"], "key_not_added", || ev.err.clone());
                    if ev.ok && new {
                        for a in ev.receipt.actions() {
                            if let Action::AddKey { pk, .. } = a {
                                if !self.keys.contains(pk) {
                                    self.keys.push(pk.clone());
                                }
                            }
                        }
                        o.count("key_added");
                    }
                    self.ops.remove(&tagged.unwrap());
                } else if ev.receipt.predecessor == L {
                    // a transfer to itself
                    if let Some(K::Transfer(x, _)) = op_of(self) {
                        let _ = x;
                        self.ops.remove(&tagged.unwrap());
                    }
                } else if ev.ok && !POOLS.contains(&(&*ev.receipt.predecessor)) {
                    for a in ev.receipt.actions() {
                        if let Action::Transfer(d) = a {
                            self.strays += d;
                        }
                    }
                }
                self.views(w, o, "a plain receipt");
                return;
            }
        };
        let what = format!("{} {} by {}", m, args_json(&ev.receipt), ev.receipt.predecessor);
        if ev.receipt.predecessor == L {
            match tagged {
                Some(id) if self.ops.contains_key(&id) => self.step(o, ev, id, &what),
                _ => o.fail(&["C24", "C23"], "unasked_self_call", what.clone()),
            }
        } else if !m.starts_with("get_") && m != "are_transfers_enabled" {
            let bal = ev.pre.map_or(0, |p| p.0);
            match self.judge(ev, bal) {
                Verdict::No(why) => {
                    o.count(&format!("refused {}", why[0].0));
                    o.checks += 1;
                    if ev.ok {
                        for (y, tags) in &why {
                            o.fail(tags, y, format!("{} was accepted although {} at {}", what, y, ev.time));
                        }
                    }
                }
                v => {
                    let (k, any) = match v {
                        Verdict::Yes(k) => (k, false),
                        Verdict::Any(k) => (k, true),
                        _ => unreachable!(),
                    };
                    if ev.ok {
                        o.count(&format!("accepted {}", m));
                        let want = self.first(&k);
                        self.check_sent(o, ev, want, k.tags(), &what);
                        let transfer = if let K::Transfer(..) = k { true } else { false };
                        self.begin(ev, k, bal);
                        if transfer {
                            self.after_transfer(w, o, ev, &what);
                        }
                    } else if !any && !env_failure(ev) {
                        let mut tags: Vec<&'static str> = match k {
                            K::Select(_) | K::Unselect => vec!["C24", "C27", "C23"],
                            K::Transfer(..) => vec!["C27", "C23"],
                            K::AddKey(_) => vec!["C26"],
                            K::Vote => vec!["C25"],
                            K::Terminate(_) | K::PrepUnstake | K::PrepWithdraw | K::TermWithdraw(..) => vec!["C22", "C23"],
                            _ => vec!["C23", "C27"],
                        };
                        // the owner regains control after a termination
                        if self.s.withdrawn > 0 && !self.terminating() && !tags.contains(&"C22") {
                            tags.push("C22");
                        }
                        // the vote made it transferable
                        if self.voted && matches!(k, K::Transfer(..)) {
                            tags.push("C25");
                        }
                        o.fail(&tags, "wrongly_refused", format!("{} was refused: {} (busy {:?}, pool {:?}, known {}, bal {}, {:?} {})", what, ev.err, self.busy, self.pool, self.known, bal, self.s, ev.time));
                    }
                }
            }
        }
        self.views(w, o, &what);
    }
    fn after(&mut self, w: &mut World, o: &mut Out, _step: &Step) {
        if !self.started || !w.quiescent() {
            return;
        }
        o.check(self.busy.is_none(), &["C23", "C27"], "never_idle", || format!("operation {:?} never ended", self.busy));
        let left: Vec<String> = self.ops.values().map(|x| format!("{:?}", x.k)).collect();
        o.check(left.is_empty(), &["C22", "C23", "C25"], "never_ended", || format!("operations {:?} never ended", left));
        if let Some(p) = self.pool.clone() {
            let total = Self::pool_total(w, &p);
            let known = self.known;
            o.check(total + TOL >= known, &["C20", "C23"], "known_over_pool", || format!("remembers {} in {} but only {} is there", known, p, total));
        }
    }
    fn close(d: &mut Driver<Self>) {
        d.f.plan.clear();
        d.apply(&Step::Drain);
        let calm = |d: &mut Driver<Self>, n: u32| {
            for _ in 0..n {
                d.apply(&epoch_step(vec![], vec![]));
            }
        };
        // the foundation gets what was unvested
        if d.f.terminating() {
            let left = d.f.unvested_left();
            let pool = match d.f.pool.clone() {
                // (rewards that nobody knows of yet are not the foundation's)
                Some(p) => Self::pool_total(&mut d.w, &p).min(d.f.known),
                None => 0,
            };
            let held = d.w.amount(L) + pool;
            let due = if d.f.status == "ReadyToWithdraw" { left.min(Self::free(d.w.amount(L))) } else { left.min(Self::free(held)) };
            let before = d.w.amount("alice");
            for _ in 0..4 {
                if d.f.status != "ReadyToWithdraw" {
                    d.call(FO, L, "termination_prepare_to_withdraw", json!({}), 0);
                    calm(d, 5);
                }
            }
            if due > 0 {
                d.call(FO, L, "termination_withdraw", json!({ "receiver_id": "alice" }), 0);
            }
            let got = d.w.amount("alice") - before;
            d.o.check(got + TOL >= due && got <= left, &["C22"], "foundation_unpaid", || format!("the foundation got {} of {} (unvested {})", got, due, left));
            // with enough tokens termination completes
            if d.f.terminating() {
                let x = d.f.unvested_left() + RESERVE;
                d.apply(&Step::Send { from: "deleg".into(), to: L.into(), amount: x });
                d.apply(&Step::Drain);
                d.call(FO, L, "termination_withdraw", json!({ "receiver_id": "alice" }), 0);
            }
            let t = d.f.terminating();
            d.o.check(!t, &["C22"], "termination_never_completes", || "still terminating although everything was paid".into());
            if t {
                return;
            }
        }
        // the owner gets the transfers enabled,
        if d.f.s.transfers.is_none() {
            let ts = d.w.time - DAY;
            d.apply(&Step::Stub { to: V.into(), method: "*".into(), reply: Reply { value: Some(format!("\"{}\"", ts)), ..Default::default() } });
            d.call(OWN, L, "check_transfers_vote", json!({}), 0);
            let e = d.f.s.transfers;
            d.o.check(e == Some(ts), &["C25"], "transfers_not_enabled", || format!("vote at {}: {:?}", ts, e));
        }
        // everything out of the pool,
        if d.f.pool.is_some() {
            d.call(OWN, L, "unstake_all", json!({}), 0);
            calm(d, 5);
            d.call(OWN, L, "withdraw_all_from_staking_pool", json!({}), 0);
            d.call(OWN, L, "refresh_staking_pool_balance", json!({}), 0);
            let k = d.f.known;
            d.o.check(k <= TOL, &["C27", "C23"], "pool_not_emptied", || format!("{} remain in the pool", k));
            if k == 0 {
                d.call(OWN, L, "unselect_staking_pool", json!({}), 0);
                let p = d.f.pool.clone();
                d.o.check(p.is_none(), &["C27", "C24"], "not_unselected", || format!("{:?}", p));
            }
        }
        // the schedules end,
        let last = d.f.s.instants(Some(d.f.vs)).into_iter().max().unwrap_or(0);
        if last > d.w.time + 30 * 365 * DAY {
            d.o.count("never_unlocks");
            return;
        }
        if last + DAY > d.w.time {
            let ns = last + DAY - d.w.time;
            d.apply(&Step::Time { ns });
        }
        let l = d.w.vu(L, "get_locked_amount", json!({}));
        d.o.check(l == Some(0), &["C21"], "locked_at_the_end", || format!("{:?} locked after the end of the schedules", l));
        // and everything is the owner's.
        let bal = d.w.amount(L);
        let x = Self::free(bal);
        if x > 0 {
            d.call(OWN, L, "transfer", json!({"amount": x.to_string(), "receiver_id": "alice"}), 0);
        }
        let rest = d.w.amount(L);
        d.o.check(rest <= RESERVE + NEAR / 10, &["C27"], "owner_unpaid", || format!("{} of {} are still in the lockup", rest, bal));
        let (paid, taken, strays, amount) = (d.f.paid, d.f.taken, d.f.strays, d.f.s.amount);
        // (unless it forgot the pool after a report of less than it holds)
        let gone = d.f.gone;
        d.o.check(gone || paid + taken + rest + TOL >= amount + strays, &["C27", "C20"], "tokens_lost", || {
            format!("owner got {}, foundation {}, {} remain, of {} + {}", paid, taken, rest, amount, strays)
        });
        d.call(OWN, L, "add_full_access_key", json!({ "new_public_key": pk_str("last") }), 0);
        let has = d.w.accounts.get(L).map_or(false, |a| a.keys.contains_key(&pk_of("last")));
        d.o.check(has, &["C26"], "no_key_at_the_end", || "the owner cannot add a key after everything is released".into());
    }
}
impl Lockup {
    /// What is left after a transfer covers what is locked.
    fn after_transfer(&mut self, w: &mut World, o: &mut Out, ev: &Exec, what: &str) {
        let bal = ev.post.map_or(0, |p| p.0);
        let pool = match self.pool.clone() {
            Some(p) => Self::pool_total(w, &p),
            None => 0,
        };
        let lock = self.s.locked(ev.time);
        o.check(bal + pool + TOL >= lock, &["C20"], "locked_tokens_left", || format!("{}: {} here and {} in the pool, {} locked", what, bal, pool, lock));
        o.check(bal >= RESERVE, &["C20"], "reserve_left", || format!("{}: only {} here", what, bal));
    }
}
