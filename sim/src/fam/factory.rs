//! Staking-pool factory and whitelist: concurrent pool creations, foundation, other factories.
use super::common::*;
use crate::engine::Env;
use crate::sim::*;
use crate::util::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const F: &str = "factory";
const W: &str = "whitelist";
const FO: &str = "foundation";
const MIN: u128 = 30 * NEAR;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Cfg {
    names: u64,
    low_gas: u64,
    bad: u64,
    fail: u64,
    wl: u64,
    delete: u64,
    proxy: u64,
    deliver: u64,
    epoch: u64,
    pre: bool,
    listed: bool,
}
#[derive(Clone, Debug)]
struct Req {
    by: String,
    name: String,
    deposit: u128,
    args: Value,
    created: bool,
    /// outcome of whitelisting: None never asked
    listed: Option<bool>,
    listing_excused: bool,
    paid: Vec<(String, u128)>,
    /// the factory has reacted to the outcome
    answered: bool,
    done: bool,
}
pub struct Factory {
    cfg: Cfg,
    reqs: Vec<Req>,
    trace: Trace,
    wl: BTreeSet<String>,
    fwl: BTreeSet<String>,
    users: Vec<String>,
    started: bool,
    /// the factory's own tokens
    own: u128,
    code: Vec<u8>,
}
fn full(n: &str) -> String {
    format!("{}.{}", n, F)
}
impl Factory {
    fn taken(&self) -> usize {
        self.reqs.iter().filter(|r| r.created || !r.answered).count()
    }
    fn good_args(r: &mut Rng, name: &str) -> Value {
        let d = 1 + r.below(50);
        json!({"staking_pool_id": name, "owner_id": *r.pick(&["owner1", "owner2.near", "u0.near"]),
            "stake_public_key": pk_str(&format!("v{}", r.below(5))),
            "reward_fee_fraction": {"numerator": r.below(d + 1), "denominator": d}})
    }
    fn args_ok(a: &Value) -> bool {
        let name = s(&a["staking_pool_id"]);
        let k = s(&a["stake_public_key"]);
        let f = &a["reward_fee_fraction"];
        !name.contains('.')
            && valid_account_id(&full(&name))
            && valid_account_id(&s(&a["owner_id"]))
            && bs58::decode(k.strip_prefix("ed25519:").unwrap_or("0")).into_vec().map_or(false, |k| k.len() == 32)
            && f["denominator"].as_u64().map_or(false, |d| d > 0 && f["numerator"].as_u64().map_or(false, |n| n <= d))
    }
    fn finish(&mut self, w: &mut World, o: &mut Out, i: usize) {
        let q = self.reqs[i].clone();
        self.reqs[i].done = true;
        const T: &[&str] = &["C10"];
        let id = full(&q.name);
        if q.created {
            o.count("pools_created");
            o.check(q.paid.is_empty(), T, "paid_and_created", || format!("pool {} created and {:?} paid", id, q.paid));
            o.check(q.listed == Some(true) || q.listing_excused, T, "not_whitelisted", || format!("pool {} created but not whitelisted", id));
            let acc = w.accounts.get(&id).cloned();
            o.check(acc.as_ref().map_or(false, |a| a.code.as_ref().map_or(false, |c| c.hash == self.code)), T, "wrong_code", || {
                format!("{} does not run the staking pool contract", id)
            });
            let k = acc.map_or(0, |a| a.keys.len());
            o.check(k == 0, T, "pool_has_keys", || format!("{} was created with {} access keys", id, k));
            let ow = w.vj(&id, "get_owner_id", json!({}));
            let ke = w.vj(&id, "get_staking_key", json!({}));
            let fe = w.vj(&id, "get_reward_fee_fraction", json!({}));
            let ok = ow == Some(q.args["owner_id"].clone()) && ke == Some(q.args["stake_public_key"].clone())
                && fe == Some(q.args["reward_fee_fraction"].clone());
            o.check(ok, T, "wrong_init", || format!("{} initialised with {:?} {:?} {:?}, asked {}", id, ow, ke, fe, q.args));
        } else {
            o.count("creations_failed");
            let exp = vec![(q.by.clone(), q.deposit)];
            o.check(q.paid == exp, T, "refund", || {
                format!("creation of {} by {} with {} failed; factory paid {:?}", id, q.by, q.deposit, q.paid)
            });
            o.check(q.listed.is_none(), T, "listed_without_pool", || format!("{} not created but whitelisting asked", id));
        }
        o.check(q.answered, T, "unanswered", || format!("nothing in flight for the creation of {} and the factory never reacted", id));
    }
    fn check_count(&mut self, w: &mut World, o: &mut Out) {
        let n = w.vj(F, "get_number_of_staking_pools_created", json!({})).and_then(|v| v.as_u64());
        let exp = self.taken() as u64;
        o.check(n == Some(exp), &["C10"], "count", || format!("number of pools {:?}, created or being created {}", n, exp));
    }
    fn check_lists(&mut self, w: &mut World, o: &mut Out) {
        for i in 0..self.cfg.names + 4 {
            let id = match i {
                0 => F.to_string(),
                1 => "fac2".into(),
                2 => "u0.near".into(),
                3 => "some.pool".into(),
                i => full(&format!("p{}", i - 4)),
            };
            let a = w.vj(W, "is_whitelisted", json!({ "staking_pool_account_id": id }));
            let e = self.wl.contains(&id);
            o.check(a == Some(json!(e)), &["C11"], "pool_list", || format!("is_whitelisted({}) = {:?}, expected {}", id, a, e));
            let a = w.vj(W, "is_factory_whitelisted", json!({ "factory_account_id": id }));
            let e = self.fwl.contains(&id);
            o.check(a == Some(json!(e)), &["C11"], "factory_list", || format!("is_factory_whitelisted({}) = {:?}, expected {}", id, a, e));
        }
    }
    fn on_whitelist(&mut self, w: &mut World, o: &mut Out, ev: &Exec, m: &str) {
        const T: &[&str] = &["C11"];
        let who = ev.receipt.predecessor.clone();
        let a = args_json(&ev.receipt);
        let id = a.as_object().and_then(|x| x.values().next().cloned()).unwrap_or(Value::Null);
        let id = s(&id);
        let auth = match m {
            "add_staking_pool" => who == FO || self.fwl.contains(&who),
            "remove_staking_pool" | "add_factory" | "remove_factory" => who == FO,
            "is_whitelisted" | "is_factory_whitelisted" => true,
            _ => false,
        };
        let allowed = auth && valid_account_id(&id);
        let what = format!("{} {} by {}", m, a, who);
        if ev.ok {
            o.check(allowed, T, "list_accepted", || format!("{} accepted", what));
        } else if allowed {
            o.check(env_failure(ev) || ev.receipt.deposit() > 0, T, "list_refused", || format!("{} failed: {}", what, ev.err));
        } else {
            o.count("whitelist_refused");
        }
        if ev.ok {
            let exp = match m {
                "add_staking_pool" => self.wl.insert(id.clone()),
                "remove_staking_pool" => self.wl.remove(&id),
                "add_factory" => self.fwl.insert(id.clone()),
                "remove_factory" => self.fwl.remove(&id),
                "is_whitelisted" => self.wl.contains(&id),
                _ => self.fwl.contains(&id),
            };
            let r = ev.ret_json();
            o.check(r == Some(json!(exp)), T, "list_answer", || format!("{} answered {:?}, expected {}", what, r, exp));
            o.count(&format!("ok_{}", m));
        }
        o.check(ev.sent().count() == 0, T, "list_output", || format!("{} sent something", what));
        self.check_lists(w, o);
    }
}

impl Family for Factory {
    fn config(r: &mut Rng, prop: &str) -> Value {
        let f = r.chance(3, 4);
        let mut d = |m: u64| if f && r.chance(1, 2) { r.range(1, m) } else { 0 };
        let (low_gas, bad, fail, delete) = (d(20), d(30), d(20), d(6));
        serde_json::to_value(Cfg {
            names: r.range(1, 12),
            low_gas,
            bad,
            fail,
            wl: if prop == "C11" { r.range(30, 120) } else { r.below(30) },
            delete,
            proxy: r.below(12),
            deliver: *r.pick(&[0u64, 60, 150]),
            epoch: r.below(6),
            pre: r.chance(1, 3),
            listed: !r.chance(1, 6),
        })
        .unwrap()
    }
    fn setup(env: &Env, prop: &str, cfg: &Value) -> Driver<Self> {
        let cfg: Cfg = serde_json::from_value(cfg.clone()).unwrap();
        let mut w = env.world();
        w.contract(F, 500 * NEAR, &env.code("staking-pool-factory"));
        w.contract(W, 500 * NEAR, &env.code("whitelist"));
        let users: Vec<String> = (0..3).map(|i| format!("u{}.near", i)).collect();
        for u in users.iter().map(|x| &x[..]).chain(vec![FO, "fac2", "proxy", "owner1", "forger"]) {
            w.create(u, 1_000_000 * NEAR);
        }
        if cfg.pre {
            w.create(&full("p0"), 7 * NEAR);
        }
        w.stubs.insert(("forger".into(), "*".into()), Reply::default());
        w.val.min_stake = 0;
        let code = env.code("staking-pool").hash.clone();
        let f = Factory {
            cfg: cfg.clone(),
            reqs: vec![],
            trace: Trace::default(),
            wl: BTreeSet::new(),
            fwl: BTreeSet::new(),
            users,
            started: false,
            own: 0,
            code,
        };
        let mut d = Driver::new(w, f, prop);
        d.apply(&tx(FO, F, "new", json!({ "staking_pool_whitelist_account_id": W }), 0, FULL_GAS));
        d.apply(&tx(FO, W, "new", json!({ "foundation_account_id": FO }), 0, FULL_GAS));
        d.apply(&Step::Drain);
        d.f.started = true;
        d.f.own = d.w.amount(F);
        if cfg.listed {
            d.call(FO, W, "add_factory", json!({ "factory_account_id": F }), 0);
        }
        d
    }
    fn relay(&self) -> Option<&'static str> {
        Some("forger")
    }

    fn watched(&self) -> Vec<String> {
        vec![F.into(), W.into()]
    }
    fn next(&mut self, w: &mut World, r: &mut Rng, _o: &mut Out) -> Step {
        let c = self.cfg.clone();
        let busy = !w.queues.is_empty();
        let wts = [50, c.wl, if busy { c.deliver } else { 0 }, if busy { 40 } else { 0 }, c.fail, c.delete, c.proxy, c.epoch, 3];
        let name = format!("p{}", r.below(c.names));
        let create = |r: &mut Rng| {
            let mut a = Factory::good_args(r, &name);
            let mut dep = match r.below(4) {
                0 => MIN,
                1 => MIN + r.amount(NEAR),
                _ => MIN + r.amount(5000 * NEAR),
            };
            if r.chance(c.bad, 100) {
                match r.below(9) {
                    0 => a["staking_pool_id"] = json!(*r.pick(&["", "a.b", "Bad", "x".repeat(80).as_str(), "-a", "p0.factory"])),
                    1 => a["owner_id"] = json!(*r.pick(&["", "Bad!", "x"])),
                    2 => a["stake_public_key"] = json!(*r.pick(&["ed25519:0OIl", "", "ed25519:abc"])),
                    3 => a["reward_fee_fraction"] = json!({"numerator": 3, "denominator": 2}),
                    4 => a["reward_fee_fraction"] = json!({"numerator": 0, "denominator": 0}),
                    5 | 6 => dep = MIN - 1,
                    7 => dep = r.amount(MIN),
                    _ => dep = 0,
                }
            }
            (a, dep)
        };
        match r.weighted(&wts) {
            0 => {
                let (a, dep) = create(r);
                let g = if r.chance(c.low_gas, 100) { r.range(60, 250) * TGAS } else { gas(r, c.low_gas) };
                tx(&r.pick(&self.users).clone(), F, "create_staking_pool", a, dep, g)
            }
            1 => {
                let who = match r.below(8) {
                    0..=4 => FO.to_string(),
                    5 => "fac2".into(),
                    _ => r.pick(&self.users).clone(),
                };
                let id = match r.below(12) {
                    0 => "Bad!".to_string(),
                    1 => "".into(),
                    2 | 3 => F.into(),
                    4 | 5 => "fac2".into(),
                    6 => "some.pool".into(),
                    7 => "u0.near".into(),
                    _ => full(&name),
                };
                let g = gas(r, c.low_gas);
                match r.below(10) {
                    0..=3 => tx(&who, W, "add_staking_pool", json!({ "staking_pool_account_id": id }), 0, g),
                    4..=5 => tx(&who, W, "remove_staking_pool", json!({ "staking_pool_account_id": id }), 0, g),
                    6..=7 => tx(&who, W, "add_factory", json!({ "factory_account_id": id }), 0, g),
                    8 => tx(&who, W, "remove_factory", json!({ "factory_account_id": id }), 0, g),
                    _ => tx(&who, W, "is_whitelisted", json!({ "staking_pool_account_id": id }), 0, g),
                }
            }
            2 => pick_channel(w, r).unwrap(),
            3 => Step::Drain,
            4 => {
                if r.chance(2, 3) {
                    Step::Fail { to: full(&name), method: "new".into(), n: 1 }
                } else {
                    Step::Fail { to: W.into(), method: "add_staking_pool".into(), n: 1 }
                }
            }
            5 => {
                let who = r.pick(&self.users).clone();
                if w.exists(&who) {
                    Step::Delete { account: who, beneficiary: FO.into() }
                } else {
                    Step::Create { account: who, amount: 1_000_000 * NEAR }
                }
            }
            6 => {
                if r.chance(1, 2) {
                    let (a, dep) = create(r);
                    proxy("proxy", F, "create_staking_pool", a, dep, 200 * TGAS)
                } else {
                    tx(&r.pick(&self.users).clone(), "proxy", "go", json!({}), 0, FULL_GAS)
                }
            }
            7 => epoch_step(vec![], vec![]),
            _ => match r.below(4) {
                // outsiders at the callback and the initialisation
                0 | 1 => {
                    let a = json!({"staking_pool_account_id": full(&name), "attached_deposit": st(MIN), "predecessor_account_id": "u1.near"});
                    let who = r.pick(&self.users).clone();
                    match r.below(3) {
                        0 => tx(&who, F, "on_staking_pool_create", a, 0, FULL_GAS),
                        1 => forge(&who, "forger", F, "on_staking_pool_create", a, None),
                        _ => forge(&who, "forger", F, "on_staking_pool_create", a, Some("true")),
                    }
                }
                2 => tx("u0.near", F, "new", json!({ "staking_pool_whitelist_account_id": "u0.near" }), 0, FULL_GAS),
                _ => tx("u0.near", W, "new", json!({ "foundation_account_id": "u0.near" }), 0, FULL_GAS),
            },
        }
    }
    fn exec(&mut self, w: &mut World, o: &mut Out, ev: &Exec) {
        let to = &ev.receipt.receiver;
        let tagged = self.trace.follow(ev);
        let m = ev.receipt.method().unwrap_or("").to_string();
        if !self.started {
            if !m.is_empty() {
                o.check(ev.ok, &["C10", "C11"], "init_failed", || ev.err.clone());
            }
            return;
        }
        if let Some(i) = tagged {
            let i = i as usize;
            let q = &mut self.reqs[i];
            if *to == full(&q.name) && ev.ok && ev.pre.is_none() && ev.post.is_some() {
                q.created = true;
                let (have, dep) = (ev.post.map_or(0, |p| p.0 + p.1) - ev.reward, q.deposit);
                let staked: u128 = ev.sent().filter(|r| r.receiver != *to).map(|r| r.deposit()).sum();
                o.check(have == dep && staked == 0, &["C10"], "pool_funding", || {
                    format!("{} created holding {} (sent on {}), deposit was {}", to, have, staked, dep)
                });
            }
            if to == W && m == "add_staking_pool" && ev.receipt.predecessor == F {
                let named = args_json(&ev.receipt)["staking_pool_account_id"] == json!(full(&q.name));
                o.check(named, &["C10"], "listed_other", || format!("whitelisting of {} for the creation of {}", args_json(&ev.receipt), q.name));
                o.check(q.created, &["C10"], "listed_early", || format!("{} whitelisted before it exists", q.name));
                q.listed = Some(ev.ok);
                q.listing_excused = ev.fail == Some(Fail::Injected) || !self.fwl.contains(F);
            }
            if to == F && !ev.receipt.is_refund() {
                o.check(ev.ok, &["C10"], "callback_failed", || format!("{} of the creation of {}: {}", m, q.name, ev.err));
                if ev.ok {
                    q.answered = true;
                    q.paid.extend(transfers(ev));
                }
            }
        }
        // The factory's own tokens: rewards and gifts in, nothing out.
        if to == F {
            self.own += ev.reward;
            if ev.ok && (ev.receipt.is_refund() || m.is_empty()) {
                self.own += ev.receipt.deposit();
            }
            if ev.ok && m == "create_staking_pool" {
                self.own += ev.receipt.deposit();
            }
            if ev.ok {
                self.own -= ev.sent().map(|r| r.deposit()).sum::<u128>().min(self.own);
            }
            let have = w.amount(F);
            let own = self.own;
            o.check(have == own, &["C10"], "factory_balance", || format!("factory holds {}, expected {} after {}", have, own, m));
        }
        if to == W && !m.is_empty() {
            self.on_whitelist(w, o, ev, &m);
        }
        if to == F && tagged.is_none() && !m.is_empty() {
            let a = args_json(&ev.receipt);
            let name = s(&a["staking_pool_id"]);
            let what = format!("{} {} by {} with {}", m, a, ev.receipt.predecessor, ev.receipt.deposit());
            let free = !self.reqs.iter().any(|r| r.name == name && (r.created || !r.answered));
            let legal = m == "create_staking_pool" && Factory::args_ok(&a) && ev.receipt.deposit() >= MIN;
            let allowed = legal && free;
            if ev.ok {
                o.check(allowed, &["C10"], "accepted", || format!("{} accepted (name free: {}, valid: {})", what, free, legal));
                if m == "create_staking_pool" {
                    self.trace.add(self.reqs.len() as u64, ev);
                    self.reqs.push(Req {
                        by: ev.receipt.predecessor.clone(),
                        name,
                        deposit: ev.receipt.deposit(),
                        args: a,
                        created: false,
                        listed: None,
                        listing_excused: false,
                        paid: transfers(ev).into_iter().filter(|t| t.0 == ev.receipt.predecessor).collect(),
                        answered: false,
                        done: false,
                    });
                    o.count("creations_started");
                } else {
                    let t: u128 = ev.sent().map(|r| r.deposit()).sum();
                    o.check(t == 0, &["C10"], "outsider_paid", || format!("{} made the factory pay {}", what, t));
                }
            } else if allowed {
                o.check(env_failure(ev), &["C10"], "refused", || format!("{} failed: {}", what, ev.err));
            } else {
                o.count("creations_refused");
                if legal {
                    o.count("name_conflicts");
                }
            }
        }
        for i in 0..self.reqs.len() {
            if !self.reqs[i].done && self.trace.done(i as u64) {
                self.finish(w, o, i);
            }
        }
        if to == F && !ev.receipt.is_refund() {
            self.check_count(w, o);
        }
        // one name, one creation
        if ev.ok && to.ends_with(".factory") && ev.pre.is_none() && ev.post.is_some() {
            let n = self.reqs.iter().filter(|r| full(&r.name) == *to && r.created).count();
            o.check(n == 1, &["C10"], "created_unasked", || format!("{} created {} times by requests", to, n));
        }
    }
    fn after(&mut self, _w: &mut World, _o: &mut Out, _s: &Step) {}
    fn close(d: &mut Driver<Self>) {
        d.apply(&Step::Drain);
        let undone: Vec<String> = d.f.reqs.iter().filter(|r| !r.done).map(|r| r.name.clone()).collect();
        d.o.check(undone.is_empty(), &["C10"], "unsettled", || format!("creations {:?} never settled", undone));
        d.call(FO, W, "add_factory", json!({ "factory_account_id": F }), 0);
        d.call("fac2", W, "add_staking_pool", json!({ "staking_pool_account_id": "some.pool" }), 0);
        // Every name that has no pool can be used now.
        let mut r = Rng::new(9);
        for i in 0..d.f.cfg.names {
            let n = format!("p{}", i);
            if d.w.exists(&full(&n)) {
                continue;
            }
            let a = Factory::good_args(&mut r, &n);
            d.call(FO, F, "create_staking_pool", a, MIN + 1);
            let ok = d.w.exists(&full(&n)) && d.f.wl.contains(&full(&n));
            d.o.check(ok, &["C10"], "name_unusable", || format!("{} has no pool and cannot be created", n));
        }
    }
}
