//! The lockup factory and the multisig factory: concurrent creations, refunds, outsiders.
use super::common::*;
use super::sched::*;
use crate::engine::Env;
use crate::sim::*;
use crate::util::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;

const F: &str = "lock.near";
const FO: &str = "foundation";
const MIN: u128 = 3_500_000_000_000_000_000_000_000;
const STARTED: u64 = 1602614338293769340;
const SALT: &str = "c2FsdA==";

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Cfg {
    lockup: bool,
    names: u64,
    low_gas: u64,
    bad: u64,
    fail: u64,
    delete: u64,
    proxy: u64,
    deliver: u64,
    epoch: u64,
    pre: bool,
    outsider: u64,
}
#[derive(Clone, Debug)]
struct Req {
    by: String,
    id: String,
    deposit: u128,
    gas: u64,
    args: Value,
    created: bool,
    /// somebody else had the account when this creation was executed
    excused: bool,
    failed: bool,
    paid: Vec<(String, u128)>,
    done: bool,
}
pub struct Create {
    cfg: Cfg,
    reqs: Vec<Req>,
    trace: Trace,
    users: Vec<String>,
    started: bool,
    own: u128,
    code: Vec<u8>,
    kept: Vec<(String, usize)>,
}
fn hash_of(v: &Vs) -> String {
    let mut b = vec![];
    for x in &[v.start, v.cliff, v.end] {
        b.extend(&x.to_le_bytes());
    }
    let salt = base64::decode(SALT).unwrap();
    b.extend(&(salt.len() as u32).to_le_bytes());
    b.extend(salt);
    base64::encode(sha256(&b))
}
fn short(owner: &str) -> String {
    format!("{}.{}", hex::encode(&sha256(owner.as_bytes())[..20]), F)
}
impl Create {
    fn t(&self) -> &'static [&'static str] {
        if self.cfg.lockup {
            &["C30"]
        } else {
            &["C55"]
        }
    }
    fn id(&self, a: &Value) -> String {
        if self.cfg.lockup {
            short(&s(&a["owner_account_id"]))
        } else {
            format!("{}.{}", s(&a["name"]), F)
        }
    }
    fn args(&self, r: &mut Rng) -> Value {
        let n = r.below(self.cfg.names);
        if !self.cfg.lockup {
            let k = r.range(1, 6);
            let mut ms = BTreeSet::new();
            for _ in 0..k {
                ms.insert(if r.chance(1, 2) {
                    json!({ "public_key": pk_str(&format!("k{}", r.below(6))) }).to_string()
                } else {
                    json!({ "account_id": *r.pick(&["u0.near", "u1.near", "alice.near", "proxy", F]) }).to_string()
                });
            }
            let ms: Vec<Value> = ms.iter().map(|m| serde_json::from_str(m).unwrap()).collect();
            let k = r.range(1, ms.len() as u64);
            return json!({"name": format!("m{}", n), "members": ms, "num_confirmations": k});
        }
        let day = 86_400_000_000_000u64;
        let dur = |r: &mut Rng| match r.below(4) {
            0 => 0,
            1 => r.amount(1000 * day as u128) as u64,
            2 => r.amount(u64::MAX as u128) as u64,
            _ => r.below(1500) * day,
        };
        let mut a = json!({"owner_account_id": format!("o{}.near", n), "lockup_duration": dur(r).to_string()});
        if r.chance(1, 2) {
            a["lockup_timestamp"] = json!((STARTED - 300 * day + dur(r) / 2).to_string());
        }
        if r.chance(1, 2) {
            a["release_duration"] = json!(dur(r).to_string());
        }
        if r.chance(1, 3) {
            a["whitelist_account_id"] = json!(*r.pick(&["wl2.near", "u0.near"]));
        }
        if r.chance(3, 5) {
            let start = STARTED - 400 * day + r.below(800) * day;
            let vs = Vs { start, cliff: start + r.below(400) * day + r.below(2), end: start + 401 * day + r.amount(3000 * day as u128) as u64 };
            a["vesting_schedule"] = if r.chance(1, 2) {
                json!({ "VestingHash": hash_of(&vs) })
            } else {
                json!({ "VestingSchedule": vs.json() })
            };
        }
        a
    }
    /// Can an account be created from these arguments at all?
    fn sound(&self, a: &Value) -> bool {
        if self.cfg.lockup {
            let opt = |k: &str| a.get(k).map_or(true, |v| v.is_null() || u(v).map_or(false, |x| x <= u64::MAX as u128));
            let vest = match a.get("vesting_schedule") {
                None | Some(Value::Null) => true,
                Some(v) => match (v.get("VestingHash"), v.get("VestingSchedule")) {
                    (Some(h), None) => base64::decode(s(h)).is_ok(),
                    (None, Some(p)) => Vs::of(p).map_or(false, |x| x.valid()),
                    _ => false,
                },
            };
            valid_account_id(&s(&a["owner_account_id"]))
                && a.get("whitelist_account_id").map_or(true, |v| valid_account_id(&s(v)))
                && u(&a["lockup_duration"]).map_or(false, |x| x <= u64::MAX as u128)
                && opt("lockup_timestamp")
                && opt("release_duration")
                && vest
        } else {
            let n = s(&a["name"]);
            let ms = a["members"].as_array().cloned().unwrap_or_default();
            let k = a["num_confirmations"].as_u64();
            let good = |m: &Value| match (m.get("public_key"), m.get("account_id")) {
                (Some(k), None) => pk_parse(&s(k)).is_some(),
                (None, Some(a)) => a.is_string(),
                _ => false,
            };
            !n.contains('.') && valid_account_id(&self.id(a)) && ms.iter().all(good) && k.map_or(false, |k| k as usize <= ms.len())
        }
    }
    /// The members asked for, each once.
    fn members(a: &Value) -> BTreeSet<String> {
        let f = |m: &Value| match m["public_key"].as_str() {
            Some(k) => json!({ "public_key": pk_parse(k).map_or(k.to_string(), |p| pk_text(&p)) }).to_string(),
            None => m.to_string(),
        };
        a["members"].as_array().map_or(BTreeSet::new(), |v| v.iter().map(f).collect())
    }
    /// Names a member twice: nothing, or a multisig that works.
    fn repeats(&self, a: &Value) -> bool {
        !self.cfg.lockup && Create::members(a).len() < a["members"].as_array().map_or(0, |v| v.len())
    }
    fn sched(a: &Value, deposit: u128) -> Sched {
        let opt = |k: &str| a.get(k).and_then(u).map(|x| x as u64);
        let vest = match a.get("vesting_schedule") {
            None | Some(Value::Null) => Vest::None,
            Some(v) if v.get("VestingHash").is_some() => Vest::Hash,
            Some(v) => Vest::Plain(Vs::of(&v["VestingSchedule"]).unwrap()),
        };
        Sched {
            amount: deposit,
            withdrawn: 0,
            lockup_duration: opt("lockup_duration").unwrap_or(0),
            lockup_timestamp: opt("lockup_timestamp"),
            release: opt("release_duration"),
            transfers: Some(STARTED),
            vest,
        }
    }
    fn check_lockup(&self, w: &mut World, o: &mut Out, q: &Req) {
        let t = self.t();
        let ow = w.vj(&q.id, "get_owner_account_id", json!({}));
        o.check(ow == Some(q.args["owner_account_id"].clone()), t, "owner", || format!("{} has owner {:?}, asked {}", q.id, ow, q.args));
        let en = w.vj(&q.id, "are_transfers_enabled", json!({}));
        o.check(en == Some(json!(true)), t, "transfers", || format!("{} transfers enabled: {:?}", q.id, en));
        let v = w.vj(&q.id, "get_vesting_information", json!({}));
        let exp = match q.args.get("vesting_schedule") {
            None | Some(Value::Null) => json!("None"),
            Some(v) => v.clone(),
        };
        o.check(v.as_ref() == Some(&exp), t, "vesting", || format!("{} has vesting {:?}, asked {}", q.id, v, exp));
        let sc = Create::sched(&q.args, q.deposit);
        let now = w.time;
        for x in sc.instants(None) {
            if x < STARTED / 2 {
                continue;
            }
            w.time = x;
            let l = w.vu(&q.id, "get_locked_amount", json!({}));
            let e = sc.locked(x);
            o.check(l == Some(e), t, "schedule", || format!("{} would have {:?} locked at {}, asked for {} ({})", q.id, l, x, e, q.args));
        }
        w.time = now;
    }
    fn check_multisig(&self, w: &mut World, o: &mut Out, q: &Req) {
        let t = self.t();
        let set = |v: &Value| v.as_array().map(|a| a.iter().map(|x| x.to_string()).collect::<BTreeSet<_>>());
        let exp = Some(Create::members(&q.args));
        let ms = w.vj(&q.id, "get_members", json!({})).as_ref().and_then(set);
        o.check(ms == exp, t, "members", || format!("{} has members {:?}, asked {:?}", q.id, ms, exp));
        let k = w.vj(&q.id, "get_num_confirmations", json!({}));
        o.check(k == Some(q.args["num_confirmations"].clone()), t, "threshold", || format!("{} needs {:?} confirmations, asked {}", q.id, k, q.args));
        let n = Create::members(&q.args).len() as u64;
        o.check(q.args["num_confirmations"].as_u64().map_or(false, |k| k <= n), t, "threshold_above_members", || {
            format!("{} has {} members and needs {} confirmations", q.id, n, q.args["num_confirmations"])
        });
        let have: BTreeSet<String> = w.accounts.get(&q.id).map_or(BTreeSet::new(), |a| a.keys.iter().map(|(k, p)| format!("{} {}", pk_text(k), super::msig::perm_text(p))).collect());
        let keys: BTreeSet<String> = q.args["members"]
            .as_array()
            .unwrap()
            .iter()
            .filter_map(|m| m["public_key"].as_str())
            .map(|k| pk_parse(k).map_or(k.to_string(), |p| pk_text(&p)))
            .map(|k| format!("{} call({},None,own request methods)", k, q.id))
            .collect();
        o.check(have == keys, t, "keys", || format!("{} has access keys {:?}, asked {:?}", q.id, have, keys));
    }
    fn finish(&mut self, w: &mut World, o: &mut Out, i: usize) {
        let q = self.reqs[i].clone();
        self.reqs[i].done = true;
        let t = self.t();
        if q.created {
            o.count("created");
            o.check(q.paid.is_empty(), t, "paid_and_created", || format!("{} created and {:?} paid", q.id, q.paid));
            o.check(self.sound(&q.args), t, "created_unsound", || format!("{} created from {}", q.id, q.args));
            let acc = w.accounts.get(&q.id).cloned();
            o.check(acc.as_ref().map_or(false, |a| a.code.as_ref().map_or(false, |c| c.hash == self.code)), t, "wrong_code", || {
                format!("{} does not run the expected contract", q.id)
            });
            if self.cfg.lockup {
                let k = acc.map_or(0, |a| a.keys.len());
                o.check(k == 0, t, "has_keys", || format!("{} was created with {} access keys", q.id, k));
                self.check_lockup(w, o, &q);
            } else {
                self.check_multisig(w, o, &q);
            }
            self.kept.push((q.id.clone(), i));
        } else {
            o.count("creations_failed");
            let exp = if q.deposit > 0 { vec![(q.by.clone(), q.deposit)] } else { vec![] };
            let paid: Vec<_> = q.paid.iter().filter(|p| p.1 > 0).cloned().collect();
            o.check(paid == exp, t, "refund", || format!("creation of {} by {} with {} failed; factory paid {:?}", q.id, q.by, q.deposit, q.paid));
            // The price of storage is lower in the simulation than the deposit a lockup needs.
            let poor = !self.cfg.lockup && q.deposit < 2 * NEAR;
            o.check(q.excused || q.failed || poor || q.gas < 100 * TGAS || !self.sound(&q.args) || self.repeats(&q.args), t, "not_created", || {
                format!("creation of {} by {} with {} failed: {}", q.id, q.by, q.deposit, q.args)
            });
        }
    }
}

impl Family for Create {
    fn config(r: &mut Rng, prop: &str) -> Value {
        let f = r.chance(3, 4);
        let mut d = |m: u64| if f && r.chance(1, 2) { r.range(1, m) } else { 0 };
        let (low_gas, bad, fail, delete) = (d(25), d(30), d(20), d(6));
        serde_json::to_value(Cfg {
            lockup: prop == "C30",
            names: r.range(1, 12),
            low_gas,
            bad,
            fail,
            delete,
            proxy: r.below(12),
            deliver: *r.pick(&[0u64, 60, 150]),
            epoch: r.below(4),
            pre: r.chance(1, 3),
            outsider: r.below(6),
        })
        .unwrap()
    }
    fn setup(env: &Env, prop: &str, cfg: &Value) -> Driver<Self> {
        let cfg: Cfg = serde_json::from_value(cfg.clone()).unwrap();
        let mut w = env.world();
        w.time = STARTED;
        w.contract(F, 500 * NEAR, &env.code(if cfg.lockup { "lockup-factory" } else { "multisig-factory" }));
        let users: Vec<String> = (0..3).map(|i| format!("u{}.near", i)).collect();
        for u in users.iter().map(|x| &x[..]).chain(vec![FO, "proxy", "forger", "alice.near", "o0.near", "o1.near"]) {
            w.create(u, 1_000_000 * NEAR);
        }
        w.stubs.insert(("forger".into(), "*".into()), Reply::default());
        for n in &["wl.near", "wl2.near"] {
            w.create(n, NEAR);
            w.stubs.insert((n.to_string(), "*".into()), Reply { value: Some("true".into()), ..Default::default() });
        }
        let code = env.code(if cfg.lockup { "lockup" } else { "multisig2" }).hash.clone();
        let f = Create {
            cfg: cfg.clone(),
            reqs: vec![],
            trace: Trace::default(),
            users,
            started: false,
            own: 0,
            code,
            kept: vec![],
        };
        if cfg.pre {
            let id = if cfg.lockup { short("o0.near") } else { format!("m0.{}", F) };
            w.create(&id, 7 * NEAR);
        }
        let mut d = Driver::new(w, f, prop);
        if cfg.lockup {
            d.apply(&tx(FO, F, "new", json!({ "whitelist_account_id": "wl.near", "foundation_account_id": FO }), 0, FULL_GAS));
        }
        d.apply(&Step::Drain);
        d.f.started = true;
        d.f.own = d.w.amount(F);
        if cfg.lockup {
            let v = d.w.vj(F, "get_min_attached_balance", json!({}));
            d.o.check(v == Some(st(MIN)), &["C30"], "minimum", || format!("the minimum is reported as {:?}, should be {}", v, MIN));
        }
        d
    }
    fn relay(&self) -> Option<&'static str> {
        Some("forger")
    }

    fn watched(&self) -> Vec<String> {
        let mut v: Vec<String> = self.reqs.iter().map(|r| r.id.clone()).collect();
        v.sort();
        v.dedup();
        v
    }
    fn next(&mut self, w: &mut World, r: &mut Rng, _o: &mut Out) -> Step {
        let c = self.cfg.clone();
        let busy = !w.queues.is_empty();
        let make = |f: &Create, r: &mut Rng| {
            let mut a = f.args(r);
            let lo = if c.lockup { MIN } else { 3 * NEAR };
            let mut dep = match r.below(4) {
                0 => lo,
                1 => lo + r.amount(NEAR),
                _ => lo + r.amount(5000 * NEAR),
            };
            if r.chance(c.bad, 100) {
                match (c.lockup, r.below(if c.lockup { 8 } else { 9 })) {
                    (true, 0) => a["owner_account_id"] = json!(*r.pick(&["", "Bad!", "x"])),
                    (true, 1) => a["whitelist_account_id"] = json!(*r.pick(&["", "Bad!", "x"])),
                    (true, 2) => a["lockup_duration"] = json!(*r.pick(&["18446744073709551616", "-1", ""])),
                    (true, 3) | (true, 4) => {
                        let x = STARTED;
                        let vs = *r.pick(&[Vs { start: x, cliff: x, end: x }, Vs { start: x + 5, cliff: x, end: x + 9 }, Vs { start: x, cliff: x + 9, end: x + 5 }, Vs { start: x + 9, cliff: x + 9, end: x }]);
                        a["vesting_schedule"] = json!({ "VestingSchedule": vs.json() });
                    }
                    (true, 5) => dep = MIN - 1,
                    (true, 6) => dep = r.amount(MIN),
                    (true, _) => dep = 0,
                    (false, 0) => a["name"] = json!(*r.pick(&["", "a.b", "Bad", "x".repeat(80).as_str(), "-a", "m0.lock"])),
                    (false, 1) | (false, 2) => a["num_confirmations"] = json!(a["members"].as_array().unwrap().len() + 1 + r.below(3) as usize),
                    (false, 3) => {
                        let k = a["num_confirmations"].as_u64().unwrap_or(1);
                        a["num_confirmations"] = json!(*r.pick(&[u64::MAX, (1 << 32) + k, (1 << 32) + k, (1 << 63) + k, 256 + k, 65536 + k]))
                    }
                    (false, 4) if r.chance(1, 3) => a["members"] = json!([]),
                    (false, 4) | (false, 8) => {
                        // a member named twice, maybe needed twice
                        let ms = a["members"].as_array_mut().unwrap();
                        let mut m = r.pick(&ms[..]).clone();
                        if let (Some(k), true) = (m["public_key"].as_str().map(str::to_string), r.chance(1, 3)) {
                            m["public_key"] = json!(k.trim_start_matches("ed25519:"));
                        }
                        let i = r.below(ms.len() as u64 + 1) as usize;
                        ms.insert(i, m);
                        let n = ms.len();
                        if r.chance(1, 2) {
                            a["num_confirmations"] = json!(n);
                        }
                    }
                    (false, 5) => a["members"] = json!([{ "public_key": "ed25519:abc" }]),
                    (false, 6) => dep = r.amount(NEAR),
                    (false, _) => dep = 0,
                }
            }
            (a, dep)
        };
        match r.weighted(&[50, if busy { c.deliver } else { 0 }, if busy { 40 } else { 0 }, c.fail, c.delete, c.proxy, c.epoch, c.outsider]) {
            0 => {
                let (a, dep) = make(self, r);
                let g = if r.chance(c.low_gas, 100) { r.range(40, 280) * TGAS } else { gas(r, c.low_gas / 3) };
                tx(&r.pick(&self.users).clone(), F, "create", a, dep, g)
            }
            1 => pick_channel(w, r).unwrap(),
            2 => Step::Drain,
            3 => {
                let a = self.args(r);
                Step::Fail { to: self.id(&a), method: "new".into(), n: 1 }
            }
            4 => {
                let who = r.pick(&self.users).clone();
                if w.exists(&who) {
                    Step::Delete { account: who, beneficiary: FO.into() }
                } else {
                    Step::Create { account: who, amount: 1_000_000 * NEAR }
                }
            }
            5 => {
                if r.chance(1, 2) {
                    let (a, dep) = make(self, r);
                    proxy("proxy", F, "create", a, dep, r.range(100, 250) * TGAS)
                } else {
                    tx(&r.pick(&self.users).clone(), "proxy", "go", json!({}), 0, FULL_GAS)
                }
            }
            6 => epoch_step(vec![], vec![]),
            _ => {
                let a = self.args(r);
                let id = self.id(&a);
                let who = r.pick(&self.users).clone();
                match r.below(4) {
                    0 | 1 => {
                        let a = json!({"lockup_account_id": id, "account_id": id, "attached_deposit": st(MIN), "predecessor_account_id": "u1.near"});
                        let m = if c.lockup { "on_lockup_create" } else { "on_create" };
                        match r.below(3) {
                            0 => tx(&who, F, m, a, 0, FULL_GAS),
                            1 => forge(&who, "forger", F, m, a, None),
                            _ => forge(&who, "forger", F, m, a, Some("true")),
                        }
                    }
                    2 => tx("u0.near", F, "new", json!({ "whitelist_account_id": "u0.near", "foundation_account_id": "u0.near" }), 0, FULL_GAS),
                    _ => Step::Send { from: who, to: F.into(), amount: r.amount(NEAR) },
                }
            }
        }
    }
    fn exec(&mut self, w: &mut World, o: &mut Out, ev: &Exec) {
        let t = self.t();
        let to = ev.receipt.receiver.clone();
        let tagged = self.trace.follow(ev);
        let m = ev.receipt.method().unwrap_or("").to_string();
        if !self.started {
            o.check(ev.ok || m.is_empty(), t, "init_failed", || ev.err.clone());
            return;
        }
        if let Some(i) = tagged {
            let i = i as usize;
            if to == self.reqs[i].id && !ev.receipt.is_refund() {
                let legal = !self.kept.iter().any(|k| k.0 == to) && !self.reqs.iter().any(|q| q.id == to && q.created);
                let q = &mut self.reqs[i];
                if ev.pre.is_none() && ev.post.is_some() && ev.ok {
                    q.created = true;
                    let have = ev.post.map_or(0, |p| p.0 + p.1) - ev.reward;
                    o.check(have == q.deposit, t, "funding", || format!("{} created holding {}, deposit was {}", to, have, q.deposit));
                    o.check(legal, t, "created_twice", || format!("{} created twice", to));
                } else if !ev.ok {
                    q.excused |= ev.pre.is_some();
                    q.failed |= ev.fail == Some(Fail::Injected);
                }
            }
            if to == F && !ev.receipt.is_refund() {
                let q = &mut self.reqs[i];
                o.check(ev.ok || env_failure(ev) && q.gas < 100 * TGAS, t, "callback_failed", || format!("{} of the creation of {}: {}", m, q.id, ev.err));
                if ev.ok {
                    q.paid.extend(transfers(ev));
                }
            }
        } else if self.kept.iter().any(|k| k.0 == to) && !self.closing_call(&m) {
            // nobody else touches a created account in this world
            o.check(ev.receipt.is_refund(), t, "touched", || format!("{} got {} from {}", to, m, ev.receipt.predecessor));
        }
        // The factory's own tokens: rewards and gifts in, nothing out.
        if to == F {
            self.own += ev.reward;
            if ev.ok && (ev.receipt.is_refund() || m.is_empty() || m == "create") {
                self.own += ev.receipt.deposit();
            }
            if ev.ok {
                let sent = ev.sent().map(|r| r.deposit()).sum::<u128>();
                o.check(sent <= self.own, t, "overspent", || format!("{} sends {} of {}", m, sent, self.own));
                self.own = self.own.saturating_sub(sent);
            }
            let (have, own) = (w.amount(F), self.own);
            o.check(have == own, t, "factory_balance", || format!("factory holds {}, expected {} after {}", have, own, m));
        }
        if to == F && tagged.is_none() && !m.is_empty() {
            let a = args_json(&ev.receipt);
            let dep = ev.receipt.deposit();
            let what = format!("{} {} by {} with {}", m, a, ev.receipt.predecessor, dep);
            let sound = m == "create" && self.sound(&a) && !self.repeats(&a) && (!self.cfg.lockup || dep >= MIN);
            if ev.ok {
                if m == "create" {
                    o.check(!self.cfg.lockup || dep >= MIN, t, "below_minimum", || format!("{} accepted", what));
                    self.trace.add(self.reqs.len() as u64, ev);
                    self.reqs.push(Req {
                        by: ev.receipt.predecessor.clone(),
                        id: self.id(&a),
                        deposit: dep,
                        gas: ev.receipt.gas(),
                        args: a,
                        created: false,
                        excused: false,
                        failed: false,
                        paid: transfers(ev).into_iter().filter(|x| x.0 == ev.receipt.predecessor).collect(),
                        done: false,
                    });
                    o.count("creations_started");
                } else {
                    let x: u128 = ev.sent().map(|r| r.deposit()).sum();
                    o.check(x == 0 && !m.starts_with("on_") && m != "new", t, "outsider", || format!("{} accepted, paying {}", what, x));
                }
            } else if sound {
                o.check(env_failure(ev) || ev.receipt.gas() < 100 * TGAS, t, "refused", || format!("{} failed: {}", what, ev.err));
            } else {
                o.count("creations_refused");
            }
        }
        for i in 0..self.reqs.len() {
            if !self.reqs[i].done && self.trace.done(i as u64) {
                self.finish(w, o, i);
            }
        }
        // one name, one creation
        if ev.ok && to.ends_with(F) && to != F && ev.pre.is_none() && ev.post.is_some() {
            let n = self.reqs.iter().filter(|r| r.id == to && r.created).count();
            o.check(n == 1, t, "created_unasked", || format!("{} created {} times by requests", to, n));
        }
    }
    fn after(&mut self, _w: &mut World, _o: &mut Out, _s: &Step) {}
    fn close(d: &mut Driver<Self>) {
        d.apply(&Step::Drain);
        let t = d.f.t();
        let undone: Vec<String> = d.f.reqs.iter().filter(|r| !r.done).map(|r| r.id.clone()).collect();
        d.o.check(undone.is_empty(), t, "unsettled", || format!("creations {:?} never settled", undone));
        // Created lockups obey the requested whitelist and foundation.
        for (id, i) in d.f.kept.clone() {
            if !d.f.cfg.lockup {
                continue;
            }
            let q = d.f.reqs[i].clone();
            let owner = s(&q.args["owner_account_id"]);
            if !d.w.exists(&owner) {
                d.apply(&Step::Create { account: owner.clone(), amount: 100 * NEAR });
            }
            let wl = if q.args["whitelist_account_id"].is_string() { s(&q.args["whitelist_account_id"]) } else { "wl.near".into() };
            let good = wl.starts_with("wl");
            d.call(&owner, &id, "select_staking_pool", json!({ "staking_pool_account_id": "pool.near" }), 0);
            let p = d.w.vj(&id, "get_staking_pool_account_id", json!({}));
            d.o.check((p == Some(json!("pool.near"))) == good, t, "whitelist", || format!("{}: pool {:?} after selection, whitelist asked {}", id, p, wl));
            let vs = q.args.get("vesting_schedule").cloned().unwrap_or(Value::Null);
            let plain = Vs::of(&vs["VestingSchedule"]);
            let rip = plain.map_or(false, |v| v.unvested(q.deposit, d.w.time + 10_000_000_000) > 0);
            d.call("u2.near", &id, "terminate_vesting", json!({ "vesting_schedule_with_salt": Value::Null }), 0);
            let st = d.w.vj(&id, "get_termination_status", json!({}));
            d.o.check(st == Some(Value::Null), t, "foundation_stranger", || format!("{} terminated by a stranger: {:?}", id, st));
            d.call(FO, &id, "terminate_vesting", json!({ "vesting_schedule_with_salt": Value::Null }), 0);
            let st = d.w.vj(&id, "get_termination_status", json!({}));
            if rip {
                d.o.check(st.map_or(false, |v| v.is_string()), t, "foundation", || format!("{} cannot be terminated by the foundation: {}", id, q.args));
            }
        }
        // Every name that has no account can be used now.
        let mut r = Rng::new(9);
        for i in 0..d.f.cfg.names {
            let mut a = d.f.args(&mut r);
            if d.f.cfg.lockup {
                a["owner_account_id"] = json!(format!("o{}.near", i));
            } else {
                a["name"] = json!(format!("m{}", i));
            }
            let id = d.f.id(&a);
            if d.w.exists(&id) {
                continue;
            }
            d.call(FO, F, "create", a, 4 * NEAR);
            let ok = d.w.exists(&id);
            d.o.check(ok, t, "name_unusable", || format!("{} does not exist and cannot be created", id));
        }
    }
}
impl Create {
    fn closing_call(&self, m: &str) -> bool {
        !m.is_empty()
    }
}
