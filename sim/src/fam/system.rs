//! The whole system at once: pools made by the factory, delegators, lockups that stake, the pools' votes, and
//! the poll that enables the lockups' transfers. All contracts are real.
use super::common::*;
use super::sched::*;
use super::voting::{compare, Model, V};
use crate::engine::Env;
use crate::sim::*;
use crate::util::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const F: &str = "pools";
const W: &str = "whitelist";
const FO: &str = "foundation";
const PX: &str = "relay";
const T: Tags = &["C41"];
const DAY: u64 = 86_400_000_000_000;
const RESERVE: u128 = 3_500_000_000_000_000_000_000_000;
const TOL: u128 = 200;
type Tags = &'static [&'static str];

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Cfg {
    pools: u64,
    /// pools that exist at the start
    ready: u64,
    /// stakes of validators that are plain accounts, in NEAR
    plain: Vec<u64>,
    lockups: Vec<(u64, u64, Option<u64>)>,
    low_gas: u64,
    fail: u64,
    kick: u64,
    deliver: u64,
    epoch: u64,
    time: u64,
    out: u64,
    withdraw: u64,
    /// how often (of 100) a vote that would pass is allowed
    pass: u64,
}
#[derive(Clone, Debug, PartialEq)]
enum K {
    Create(String),
    Vote(bool),
    Select(String),
    /// the poll's answer when it was asked
    Check(Option<Option<u64>>),
    Other,
}
struct Lock {
    s: Sched,
    pool: Option<String>,
    /// tokens that reached somebody else
    paid: u128,
}
pub struct System {
    cfg: Cfg,
    m: Model,
    locks: BTreeMap<String, Lock>,
    /// pools that the factory reported
    listed: BTreeSet<String>,
    asked: BTreeMap<u64, bool>,
    ops: BTreeMap<u64, (K, u64)>,
    next: u64,
    trace: Trace,
    started: bool,
    ended: bool,
}
fn pname(i: u64) -> String {
    format!("p{}.{}", i, F)
}
fn lname(i: usize) -> String {
    format!("lockup{}", i)
}
fn powner(p: &str) -> String {
    format!("o{}", &p[1..2])
}
fn lowner(l: &str) -> String {
    format!("owner{}", &l[6..])
}
fn total(w: &mut World, pool: &str, a: &str) -> u128 {
    w.vu(pool, "get_account_total_balance", json!({ "account_id": a })).unwrap_or(0)
}
impl System {
    fn is_pool(&self, a: &str) -> bool {
        (0..self.cfg.pools).any(|i| pname(i) == a)
    }
    fn create(i: u64, dep: u128, g: u64) -> Step {
        let p = pname(i);
        let a = json!({"staking_pool_id": format!("p{}", i), "owner_id": powner(&p), "stake_public_key": pk_str(&p),
                       "reward_fee_fraction": {"numerator": i, "denominator": 10}});
        tx(&powner(&p), F, "create_staking_pool", a, dep, g)
    }
    fn check_lock(&self, w: &mut World, o: &mut Out, l: &str, what: &str) {
        let k = &self.locks[l];
        let e = w.vj(l, "are_transfers_enabled", json!({}));
        let want = k.s.transfers.is_some();
        o.check(e == Some(json!(want)), T, "transfers", || format!("{}: transfers of {} {:?}, expected {} (poll {:?})", what, l, e, want, self.m.result));
        let now = w.time;
        let unlock = k.s.unlock().unwrap_or(now);
        for t in &[now, unlock.saturating_sub(1), unlock, unlock.saturating_add(k.s.release.unwrap_or(0) / 2)] {
            w.time = *t;
            let g = w.vu(l, "get_locked_amount", json!({}));
            o.check(g == Some(k.s.locked(*t)), T, "locked", || format!("{}: {} of {} are locked at {}, expected {} ({:?})", what, g.unwrap_or(0), l, t, k.s.locked(*t), k.s));
        }
        w.time = now;
        let p = w.vj(l, "get_staking_pool_account_id", json!({}));
        let want = k.pool.as_ref().map_or(Value::Null, |p| json!(p));
        o.check(p == Some(want.clone()), T, "pool", || format!("{}: pool of {} is {:?}, expected {}", what, l, p, want));
    }
    fn pass_now(&self, w: &World, who: &str) -> bool {
        let st = |a: &str| w.val.stakes.get(a).map_or(0, |s| s[0]);
        let sum: u128 = self.m.votes.keys().filter(|a| **a != *who).map(|a| st(a)).sum::<u128>() + st(who);
        let all: u128 = w.val.stakes.values().map(|s| s[0]).sum();
        mul_cmp(sum, 3, all, 2) == std::cmp::Ordering::Greater
    }
}
impl Family for System {
    fn config(r: &mut Rng, _prop: &str) -> Value {
        let f = r.chance(2, 3);
        let pools = r.range(1, 4);
        let n = r.range(1, 3);
        let lockups = (0..n)
            .map(|_| {
                let d = |r: &mut Rng| if r.chance(1, 3) { 0 } else { r.below(40) * DAY + r.below(3) };
                (r.range(10, 200_000), d(r), if r.chance(1, 2) { Some(d(r)) } else { None })
            })
            .collect();
        serde_json::to_value(Cfg {
            pools,
            ready: r.range(0, pools),
            plain: (0..r.below(3)).map(|_| r.range(1, 200_000)).collect(),
            lockups,
            low_gas: if f { r.below(12) } else { 0 },
            fail: if f { r.below(8) } else { 0 },
            kick: if f { r.below(20) } else { 0 },
            deliver: *r.pick(&[0u64, 40, 100]),
            epoch: r.range(5, 30),
            time: r.below(10),
            out: r.below(16),
            withdraw: r.range(5, 40),
            pass: *r.pick(&[5u64, 20, 60]),
        })
        .unwrap()
    }
    fn setup(env: &Env, prop: &str, cfg: &Value) -> Driver<Self> {
        let cfg: Cfg = serde_json::from_value(cfg.clone()).unwrap();
        let mut w = env.world();
        w.val.min_stake = 0;
        w.contract(V, 100 * NEAR, &env.code("voting"));
        w.contract(W, 500 * NEAR, &env.code("whitelist"));
        w.contract(F, 500 * NEAR, &env.code("staking-pool-factory"));
        let mut locks = BTreeMap::new();
        for (i, (a, d, rel)) in cfg.lockups.iter().enumerate() {
            let amount = *a as u128 * NEAR;
            w.contract(&lname(i), amount, &env.code("lockup"));
            w.create(&lowner(&lname(i)), 1000 * NEAR);
            let s = Sched { amount, withdrawn: 0, lockup_duration: *d, lockup_timestamp: None, release: *rel, transfers: None, vest: Vest::None };
            locks.insert(lname(i), Lock { s, pool: None, paid: 0 });
        }
        for i in 0..cfg.pools {
            w.create(&powner(&pname(i)), 1_000_000 * NEAR);
        }
        for (i, s) in cfg.plain.iter().enumerate() {
            let id = format!("v{}", i);
            w.create(&id, 1_000 * NEAR);
            let s = *s as u128 * NEAR;
            w.val.stakes.insert(id, [s, s, s]);
        }
        for x in &[FO, "eve", "deleg", "alice", "poll2", PX] {
            w.create(x, 10_000_000 * NEAR);
        }
        for x in &["poll2", PX] {
            w.stubs.insert((x.to_string(), "*".into()), Reply { value: Some("\"7\"".into()), ..Default::default() });
        }
        let f = System {
            cfg: cfg.clone(),
            m: Model::default(),
            locks,
            listed: BTreeSet::new(),
            asked: BTreeMap::new(),
            ops: BTreeMap::new(),
            next: 1,
            trace: Trace::default(),
            started: false,
            ended: false,
        };
        let mut d = Driver::new(w, f, prop);
        d.call("eve", V, "new", json!({}), 0);
        d.call("eve", W, "new", json!({ "foundation_account_id": FO }), 0);
        d.call("eve", F, "new", json!({ "staking_pool_whitelist_account_id": W }), 0);
        d.call(FO, W, "add_factory", json!({ "factory_account_id": F }), 0);
        for (i, (_, dur, rel)) in cfg.lockups.iter().enumerate() {
            let l = lname(i);
            let a = json!({
                "owner_account_id": lowner(&l),
                "lockup_duration": dur.to_string(),
                "release_duration": rel.map(|x| x.to_string()),
                "transfers_information": {"TransfersDisabled": {"transfer_poll_account_id": V}},
                "staking_pool_whitelist_account_id": W,
            });
            d.call("eve", &l, "new", a, 0);
            // (what it held when it was initialised, rebates included, is the lockup's amount)
            let x = d.w.vu(&l, "get_locked_amount", json!({}));
            d.f.locks.get_mut(&l).unwrap().s.amount = x.unwrap_or(0);
        }
        d.f.started = true;
        for i in 0..cfg.ready {
            d.apply(&System::create(i, (30 + i as u128 * 7) * NEAR, FULL_GAS));
            d.apply(&Step::Drain);
        }
        for _ in 0..3 {
            d.apply(&epoch_step(vec![], vec![]));
        }
        d
    }
    fn relay(&self) -> Option<&'static str> {
        Some(PX)
    }
    fn watched(&self) -> Vec<String> {
        let mut v: Vec<String> = (0..self.cfg.pools).map(pname).collect();
        v.extend(self.locks.keys().cloned());
        v.push(V.into());
        v
    }
    fn next(&mut self, w: &mut World, r: &mut Rng, _o: &mut Out) -> Step {
        let c = self.cfg.clone();
        let busy = !w.queues.is_empty();
        let p = pname(r.below(c.pools));
        let ls: Vec<String> = self.locks.keys().cloned().collect();
        let l = r.pick(&ls).clone();
        let lo = lowner(&l);
        let g = gas(r, c.low_gas);
        match r.weighted(&[24, 30, 12, 8, if busy { c.deliver } else { 0 }, if busy { 30 } else { 0 }, c.epoch, c.fail, c.time, c.out, 5]) {
            0 => {
                // votes of the pools
                let mut b = !r.chance(c.withdraw, 100);
                if b && self.m.result.is_none() && self.pass_now(w, &p) && !r.chance(c.pass, 100) {
                    b = false;
                }
                let poll = *r.pick(&[V, V, V, V, V, V, V, V, "poll2", "ghost", "Bad!"]);
                tx(&powner(&p), &p, "vote", json!({ "voting_account_id": poll, "is_vote": b }), 0, g)
            }
            1 => {
                // owners of lockups
                let bal = w.amount(&l).saturating_sub(RESERVE);
                let liquid = w.vu(&l, "get_liquid_owners_balance", json!({})).unwrap_or(0);
                let am = |x: u128| json!({ "amount": x.to_string() });
                let chosen = self.locks[&l].pool.is_some();
                let (m, a) = match r.weighted(&[if chosen { 2 } else { 20 }, if chosen { 16 } else { 2 }, 4, 4, 4, 3, 2, 12, 10]) {
                    0 => {
                        let x = if r.chance(1, 6) { r.pick(&["v0", "eve", V]).to_string() } else { p };
                        ("select_staking_pool", json!({ "staking_pool_account_id": x }))
                    }
                    1 => ("deposit_and_stake", am(if r.chance(1, 2) { bal } else { r.amount(bal) }.max(1))),
                    2 => ("refresh_staking_pool_balance", json!({})),
                    3 => ("unstake_all", json!({})),
                    4 => ("withdraw_all_from_staking_pool", json!({})),
                    5 => ("stake", am(r.amount(NEAR).max(1))),
                    6 => ("unselect_staking_pool", json!({})),
                    7 => ("check_transfers_vote", json!({})),
                    _ => ("transfer", json!({"amount": (liquid + r.below(2) as u128).max(1).to_string(), "receiver_id": "alice"})),
                };
                tx(&lo, &l, m, a, 0, g)
            }
            2 => {
                // delegators, and the owners' other rights
                match r.below(8) {
                    0..=3 => tx("deleg", &p, "deposit_and_stake", json!({}), r.range(1, 200_000) as u128 * NEAR, g),
                    4 => tx("deleg", &p, "unstake_all", json!({}), 0, g),
                    5 => tx("deleg", &p, *r.pick(&["withdraw_all", "ping"]), json!({}), 0, g),
                    _ => tx(&powner(&p), &p, *r.pick(&["pause_staking", "resume_staking", "resume_staking"]), json!({}), 0, g),
                }
            }
            3 => {
                let i = r.below(c.pools);
                System::create(i, r.range(30, 5000) as u128 * NEAR, if r.chance(c.low_gas, 100) { r.range(60, 250) * TGAS } else { FULL_GAS })
            }
            4 => pick_channel(w, r).unwrap(),
            5 => Step::Drain,
            6 => {
                let mut rw = vec![];
                let ids: Vec<String> = w.val.stakes.keys().cloned().collect();
                for id in &ids {
                    let x = w.accounts.get(id).map_or(0, |a| a.locked);
                    if x > 0 && r.chance(1, 2) {
                        rw.push((id.clone(), r.amount(x / 10)));
                    }
                }
                let kick = ids.iter().filter(|_| r.chance(c.kick, 200)).cloned().collect();
                epoch_step(rw, kick)
            }
            7 => {
                let (to, m) = match r.below(5) {
                    0 => (V.to_string(), "vote"),
                    1 => (V.to_string(), "get_result"),
                    2 => (W.to_string(), *r.pick(&["is_whitelisted", "add_staking_pool"])),
                    3 => (p, *r.pick(&["deposit_and_stake", "unstake_all", "withdraw", "new"])),
                    _ => (l, *r.pick(&["on_whitelist_is_whitelisted", "on_staking_pool_deposit_and_stake"])),
                };
                if to.starts_with("lockup") && m.starts_with("on_staking") {
                    return Step::Drain;
                }
                Step::Fail { to, method: m.into(), n: 1 }
            }
            8 => Step::Time { ns: if r.chance(1, 2) { let n = *r.pick(&[10, 10, 100]); r.below(n) * DAY } else { r.below(1000) * 1_000_000_000 } },
            9 => {
                let who = r.pick(&["eve", "deleg", FO, &lo, "o0", "v0"]).to_string();
                let b = r.chance(2, 3);
                match r.below(6) {
                    0 => tx(&who, &p, "vote", json!({ "voting_account_id": V, "is_vote": b }), 0, FULL_GAS),
                    1 => tx(&who, V, "vote", json!({ "is_vote": b }), 0, FULL_GAS),
                    2 => tx(&who, V, "ping", json!({}), 0, FULL_GAS),
                    3 => tx(&who, &l, "check_transfers_vote", json!({}), 0, FULL_GAS),
                    4 => forge(&who, PX, &l, "on_get_result_from_transfer_poll", json!({}), Some(&format!("\"{}\"", w.time - DAY))),
                    _ => forge(&who, PX, &l, "on_whitelist_is_whitelisted", json!({"staking_pool_account_id": p}), Some("true")),
                }
            }
            _ => {
                // a validator that is no contract
                if c.plain.is_empty() {
                    return tx("eve", V, "ping", json!({}), 0, g);
                }
                let v = format!("v{}", r.below(c.plain.len() as u64));
                let b = self.m.result.is_some() || !self.pass_now(w, &v) || r.chance(c.pass, 100);
                if r.chance(1, 4) {
                    Step::Propose { account: v, v: r.range(0, 300_000) as u128 * NEAR }
                } else {
                    tx(&v, V, "vote", json!({ "is_vote": b }), 0, g)
                }
            }
        }
    }
    fn exec(&mut self, w: &mut World, o: &mut Out, ev: &Exec) {
        if !self.started {
            o.check(ev.ok, T, "init", || format!("{} of {} failed: {}", ev.receipt.method().unwrap_or("?"), ev.receipt.receiver, ev.err));
            return;
        }
        let (to, by) = (ev.receipt.receiver.clone(), ev.receipt.predecessor.clone());
        let tagged = self.trace.follow(ev);
        if ev.receipt.is_refund() {
            return;
        }
        let m = match ev.receipt.method() {
            Some(m) => m.to_string(),
            None => {
                if let (Some(l), true) = (self.locks.get_mut(&by), ev.ok && to != by) {
                    l.paid += ev.receipt.actions().iter().map(|a| if let Action::Transfer(d) = a { *d } else { 0 }).sum::<u128>();
                }
                return;
            }
        };
        let a = args_json(&ev.receipt);
        let what = format!("{} {} by {} at {} in epoch {}", m, a, by, to, ev.epoch);
        let enough = |ev: &Exec, g: u64| ev.fail != Some(Fail::Injected) && (ev.fail != Some(Fail::Gas) || ev.receipt.gas() >= g * TGAS);
        if to == V {
            let before = self.m.clone();
            let v = self.m.call(w, ev);
            if v.is_err() || !ev.ok {
                self.m = before.clone();
            }
            if m == "vote" || m == "ping" {
                match (v, ev.ok) {
                    (Err(()), true) => o.fail(T, "accepted", format!("{} accepted, should be refused", what)),
                    // (the pool attaches enough)
                    (Ok(()), false) => o.check(!enough(ev, 100), T, "refused", || format!("{} failed: {}", what, ev.err)),
                    _ => {}
                }
                if ev.ok && self.is_pool(&by) {
                    o.count("votes_by_pools");
                    if before.result.is_none() && self.m.result.is_some() {
                        o.count("passed_by_a_pools_vote");
                    }
                }
            }
            if m == "get_result" {
                let res = self.m.result;
                if let Some((K::Check(x), _)) = tagged.and_then(|i| self.ops.get_mut(&i)) {
                    if ev.ok {
                        *x = Some(res);
                    }
                }
            }
            compare(&self.m, w, o, T, &what);
            return;
        }
        if to == W {
            if ev.ok && m == "add_staking_pool" && by == F {
                self.listed.insert(s(&a["staking_pool_account_id"]));
            }
            if let (Some(i), "is_whitelisted") = (tagged, &m[..]) {
                let p = s(&a["staking_pool_account_id"]);
                let yes = self.listed.contains(&p);
                if ev.ok {
                    self.asked.insert(i, yes);
                    o.check(ev.ret_json() == Some(json!(yes)), T, "listing", || format!("{} answered {:?}, expected {}", what, ev.ret_json(), yes));
                }
            }
            return;
        }
        if to == F {
            if m == "create_staking_pool" && ev.ok {
                let id = self.next;
                self.next += 1;
                self.trace.add(id, ev);
                self.ops.insert(id, (K::Create(format!("{}.{}", s(&a["staking_pool_id"]), F)), ev.receipt.gas()));
            }
            return;
        }
        if self.is_pool(&to) && m == "vote" {
            let poll = s(&a["voting_account_id"]);
            let b = a["is_vote"].as_bool();
            let there = w.accounts.get(&to).map_or(false, |a| a.code.is_some());
            let legal = there && by == powner(&to) && b.is_some() && valid_account_id(&poll) && ev.receipt.deposit() == 0;
            o.check(!ev.ok || legal, T, "vote_by_stranger", || format!("{} accepted", what));
            o.check(ev.ok || !legal || !enough(ev, 150), T, "vote_refused", || format!("{} failed: {}", what, ev.err));
            if ev.ok && legal {
                let sent: Vec<_> = ev.sent().collect();
                let good = sent.len() == 1
                    && sent[0].receiver == poll
                    && sent[0].method() == Some("vote")
                    && args_json(sent[0]) == json!({ "is_vote": b })
                    && sent[0].deposit() == 0
                    && sent[0].actions().len() == 1;
                o.check(good, T, "vote_sent", || format!("{} sent {:?}", what, sent));
                let id = self.next;
                self.next += 1;
                self.trace.add(id, ev);
                self.ops.insert(id, (K::Vote(b.unwrap()), ev.receipt.gas()));
            }
            return;
        }
        if let Some(_) = self.locks.get(&to) {
            let owner = by == lowner(&to);
            match &m[..] {
                "check_transfers_vote" => {
                    let open = self.locks[&to].s.transfers.is_none();
                    o.check(!ev.ok || owner && open, T, "check_accepted", || format!("{} accepted", what));
                    o.check(ev.ok || !owner || !open || !enough(ev, 75), T, "check_refused", || format!("{} failed: {}", what, ev.err));
                    if ev.ok {
                        let id = self.next;
                        self.next += 1;
                        self.trace.add(id, ev);
                        self.ops.insert(id, (K::Check(None), ev.receipt.gas()));
                    }
                }
                "select_staking_pool" => {
                    let none = self.locks[&to].pool.is_none();
                    o.check(!ev.ok || owner && none, T, "select_accepted", || format!("{} accepted", what));
                    o.check(ev.ok || !owner || !none || !enough(ev, 75), T, "select_refused", || format!("{} failed: {}", what, ev.err));
                    if ev.ok {
                        let id = self.next;
                        self.next += 1;
                        self.trace.add(id, ev);
                        self.ops.insert(id, (K::Select(s(&a["staking_pool_account_id"])), ev.receipt.gas()));
                    }
                }
                "unselect_staking_pool" => {
                    if ev.ok {
                        self.locks.get_mut(&to).unwrap().pool = None;
                    }
                }
                "transfer" => {
                    let t = self.locks[&to].s.transfers;
                    o.check(!ev.ok || owner && t.is_some(), T, "transfer_accepted", || format!("{} accepted, poll {:?}", what, self.m.result));
                    if ev.ok {
                        let id = self.next;
                        self.next += 1;
                        self.trace.add(id, ev);
                        self.ops.insert(id, (K::Other, 0));
                    }
                }
                _ if by == to => {
                    let op = tagged.and_then(|i| self.ops.get(&i).cloned());
                    match op {
                        Some((K::Check(x), g)) => {
                            let l = self.locks.get_mut(&to).unwrap();
                            if let Some(Some(t)) = x {
                                if l.s.transfers.is_none() {
                                    let fine = !enough(ev, 25) || g < 75 * TGAS;
                                    o.check(ev.ok || fine, T, "not_enabled", || format!("{} failed although the poll passed at {}: {}", what, t, ev.err));
                                    if ev.ok {
                                        l.s.transfers = Some(t);
                                        o.count("enabled_by_the_poll");
                                    }
                                }
                            }
                        }
                        Some((K::Select(p), g)) => {
                            let yes = self.asked.get(&tagged.unwrap()).copied().unwrap_or(false);
                            let l = self.locks.get_mut(&to).unwrap();
                            if yes && l.pool.is_none() {
                                let fine = !enough(ev, 25) || g < 75 * TGAS;
                                o.check(ev.ok || fine, T, "not_selected", || format!("{} failed although {} is whitelisted: {}", what, p, ev.err));
                                if ev.ok {
                                    l.pool = Some(p);
                                    o.count("selected_a_made_pool");
                                }
                            }
                        }
                        _ => {}
                    }
                }
                "on_get_result_from_transfer_poll" | "on_whitelist_is_whitelisted" => o.check(!ev.ok, T, "forged", || format!("{} accepted", what)),
                _ => {}
            }
            self.check_lock(w, o, &to, &what);
        }
    }
    fn after(&mut self, w: &mut World, o: &mut Out, step: &Step) {
        if !self.started {
            return;
        }
        if let Step::Epoch { .. } = step {
            compare(&self.m, w, o, T, "epoch switch");
        }
        if !w.quiescent() || self.ended {
            return;
        }
        // every pool the factory has listed really is one
        for i in 0..self.cfg.pools {
            let p = pname(i);
            let there = w.accounts.get(&p).map_or(false, |a| a.code.is_some());
            let yes = self.listed.contains(&p);
            o.check(there || !yes, T, "listed_ghost", || format!("{} is listed but does not exist", p));
            let v = w.vj(W, "is_whitelisted", json!({ "staking_pool_account_id": p }));
            o.check(v == Some(json!(yes)), T, "listing", || format!("{} listed: {:?}, expected {}", p, v, yes));
        }
        // nothing of a lockup is lost
        let ls: Vec<String> = self.locks.keys().cloned().collect();
        for l in ls {
            let mut have = w.amount(&l);
            for i in 0..self.cfg.pools {
                let p = pname(i);
                if w.exists(&p) {
                    have += total(w, &p, &l);
                }
            }
            let k = &self.locks[&l];
            o.check(have + k.paid + TOL >= k.s.amount, T, "lost", || format!("{} has {} here and in the pools, paid {} of {}", l, have, k.paid, k.s.amount));
            o.check(have + TOL >= k.s.locked(w.time), T, "locked_tokens_left", || format!("{} has {}, {} are locked", l, have, k.s.locked(w.time)));
        }
    }
    fn close(d: &mut Driver<Self>) {
        d.apply(&Step::Drain);
        d.w.forced.clear();
        let calm = |d: &mut Driver<Self>, n: u32| {
            for _ in 0..n {
                d.apply(&epoch_step(vec![], vec![]));
            }
        };
        calm(d, 1);
        // every pool that does not exist can be made, and be selected at once
        let n = d.f.cfg.pools;
        for i in 0..n {
            let p = pname(i);
            if !d.w.exists(&p) {
                d.apply(&System::create(i, 100 * NEAR, FULL_GAS));
                d.apply(&Step::Drain);
                let yes = d.f.listed.contains(&p);
                d.o.check(yes, T, "not_listed", || format!("{} was created but is not listed", p));
            }
        }
        let usable: Vec<String> = (0..n).map(pname).filter(|p| d.f.listed.contains(p)).collect();
        let ls: Vec<String> = d.f.locks.keys().cloned().collect();
        for (i, l) in ls.iter().enumerate() {
            let lo = lowner(l);
            if d.f.locks[l].pool.is_none() && !usable.is_empty() {
                let p = usable[i % usable.len()].clone();
                d.call(&lo, l, "select_staking_pool", json!({ "staking_pool_account_id": p }), 0);
                let got = d.f.locks[l].pool.clone();
                d.o.check(got.as_ref() == Some(&p), T, "unusable", || format!("{} cannot select {}: {:?}", l, p, got));
            }
            let x = d.w.amount(l).saturating_sub(RESERVE);
            if let (Some(p), true) = (d.f.locks[l].pool.clone(), x > NEAR) {
                let before = total(&mut d.w, &p, l);
                d.call(&lo, l, "deposit_and_stake", json!({ "amount": x.to_string() }), 0);
                let after = total(&mut d.w, &p, l);
                d.o.check(after + TOL >= before + x, T, "not_deposited", || format!("{} deposited {} in {}: {} -> {}", l, x, p, before, after));
            }
        }
        for i in 0..n {
            let p = pname(i);
            if d.w.vj(&p, "is_staking_paused", json!({})) == Some(json!(true)) {
                d.call(&powner(&p), &p, "resume_staking", json!({}), 0);
            }
            d.call("deleg", &p, "deposit_and_stake", json!({}), 50 * NEAR);
            d.call("deleg", &p, "ping", json!({}), 0);
        }
        calm(d, 4);
        // everybody votes
        for i in 0..n {
            let p = pname(i);
            let st = d.w.val.stakes.get(&p).map_or(0, |s| s[0]);
            d.o.check(st > 0 || !d.f.listed.contains(&p), T, "no_stake", || format!("{} does not stake", p));
            if st > 0 {
                d.call(&powner(&p), &p, "vote", json!({"voting_account_id": V, "is_vote": true}), 0);
                let (done, has) = (d.f.m.result.is_some(), d.f.m.votes.get(&p).copied());
                d.o.check(done || has == Some(st), T, "vote_lost", || format!("{} voted with {}, counted {:?}", p, st, has));
            }
        }
        for i in 0..d.f.cfg.plain.len() {
            d.call(&format!("v{}", i), V, "vote", json!({ "is_vote": true }), 0);
        }
        let res = d.w.vj(V, "get_result", json!({})).and_then(|v| v.as_str().and_then(|x| x.parse::<u64>().ok()));
        d.o.check(res.is_some(), T, "never_passes", || "all stake voted, no result".into());
        // and the lockups become free with the poll's time
        for l in &ls {
            let lo = lowner(l);
            if d.f.locks[l].s.transfers.is_none() {
                d.call(&lo, l, "check_transfers_vote", json!({}), 0);
            }
            let t = d.f.locks[l].s.transfers;
            d.o.check(t == res, T, "transfers_not_enabled", || format!("{} enabled at {:?}, the poll passed at {:?}", l, t, res));
            if d.f.locks[l].pool.is_some() {
                d.call(&lo, l, "unstake_all", json!({}), 0);
            }
        }
        calm(d, 5);
        d.apply(&Step::Time { ns: 90 * DAY });
        for l in &ls {
            let lo = lowner(l);
            if d.f.locks[l].pool.is_some() {
                d.call(&lo, l, "withdraw_all_from_staking_pool", json!({}), 0);
            }
            let x = d.w.amount(l).saturating_sub(RESERVE);
            if x > 0 {
                d.call(&lo, l, "transfer", json!({"amount": x.to_string(), "receiver_id": "alice"}), 0);
            }
            let (paid, amount) = (d.f.locks[l].paid, d.f.locks[l].s.amount);
            d.o.check(paid + RESERVE + NEAR / 10 >= amount, T, "owner_unpaid", || format!("the owner of {} got {} of {}", l, paid, amount));
        }
        d.f.ended = true;
    }
}
