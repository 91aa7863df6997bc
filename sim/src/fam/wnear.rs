//! Wrapped NEAR: wrapping, unwrapping, transfers, transfer-calls to misbehaving receivers, storage.
use super::common::*;
use crate::engine::Env;
use crate::sim::*;
use crate::util::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

const W: &str = "wrap.near";
// C63 is the same history with an upgrade from the old release in its course.
const C60: &[&str] = &["C60", "C63"];
const C61: &[&str] = &["C61", "C63"];
const C62: &[&str] = &["C62", "C63"];
const C602: &[&str] = &["C60", "C62", "C63"];
const ALL: &[&str] = &["C60", "C61", "C62", "C63"];

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Cfg {
    users: u64,
    scale: u32,
    low_gas: u64,
    bad: u64,
    delete: u64,
    stray: u64,
    proxy: u64,
    calls: u64,
    fail: u64,
    deliver: u64,
    unregister: u64,
    epoch: u64,
    /// begins with the old release
    #[serde(default)]
    legacy: bool,
}
#[derive(Clone, Debug)]
struct Pending {
    sender: String,
    receiver: String,
    amount: u128,
    settled: u32,
    asked: u32,
}
pub struct Wnear {
    cfg: Cfg,
    bal: BTreeMap<String, u128>,
    supply: u128,
    min: u128,
    ids: Vec<String>,
    users: Vec<String>,
    pend: BTreeMap<u64, Pending>,
    next_pend: u64,
    trace: Trace,
    started: bool,
    slack: u128,
    /// still the old release
    old: bool,
}
#[derive(Default, Debug)]
struct Eff {
    pay: Vec<(String, u128)>,
    ret: Option<Value>,
    call: Option<(String, u128, String)>,
    /// the statement leaves this case open
    open: bool,
}
fn amt(v: &Value) -> Option<u128> {
    v.as_str().and_then(|s| s.parse().ok())
}
impl Wnear {
    /// None: refused.
    fn model(&mut self, ev: &Exec) -> Option<Eff> {
        let mut e = Eff::default();
        let m = ev.receipt.method().unwrap_or("");
        let a = args_json(&ev.receipt);
        let who = ev.receipt.predecessor.clone();
        let dep = ev.receipt.deposit();
        let sb = |min: u128| json!({"total": min.to_string(), "available": "0"});
        match m {
            "near_deposit" => {
                if dep == 0 {
                    return None;
                }
                let mut x = dep;
                if !self.bal.contains_key(&who) {
                    if self.old {
                        // the old release takes deposits of registered accounts only
                        return None;
                    }
                    x = x.checked_sub(self.min)?;
                }
                *self.bal.entry(who).or_default() += x;
                self.supply += x;
            }
            "near_withdraw" => {
                let x = amt(&a["amount"])?;
                let b = self.bal.get_mut(&who)?;
                if dep != 1 || *b < x {
                    return None;
                }
                *b -= x;
                self.supply -= x;
                e.pay.push((who, x + 1));
                e.open = x == 0;
            }
            "ft_transfer" | "ft_transfer_call" => {
                let x = amt(&a["amount"])?;
                let to = s(&a["receiver_id"]);
                if dep != 1 || x == 0 || to == who || !self.bal.contains_key(&to) || self.bal.get(&who).map_or(true, |b| *b < x) {
                    return None;
                }
                if m == "ft_transfer_call" && !a["msg"].is_string() {
                    return None;
                }
                *self.bal.get_mut(&who).unwrap() -= x;
                *self.bal.get_mut(&to).unwrap() += x;
                if m == "ft_transfer_call" {
                    e.call = Some((to, x, s(&a["msg"])));
                }
            }
            "storage_deposit" => {
                let id = match &a["account_id"] {
                    Value::Null => who.clone(),
                    v => {
                        let id = s(v);
                        if !valid_account_id(&id) {
                            return None;
                        }
                        id
                    }
                };
                let back = if self.bal.contains_key(&id) {
                    dep
                } else {
                    let back = dep.checked_sub(self.min)?;
                    self.bal.insert(id, 0);
                    back
                };
                if back > 0 {
                    e.pay.push((who, back));
                }
                e.ret = Some(sb(self.min));
            }
            "storage_withdraw" => {
                if dep != 1 || !self.bal.contains_key(&who) || !(a["amount"].is_null() || amt(&a["amount"])? == 0) {
                    return None;
                }
                e.ret = Some(sb(self.min));
            }
            // the old release has no such method
            "storage_unregister" if self.old => return None,
            "storage_unregister" => {
                if dep != 1 {
                    return None;
                }
                let force = a["force"].as_bool().unwrap_or(false);
                match self.bal.get(&who).cloned() {
                    Some(b) if b == 0 || force => {
                        self.bal.remove(&who);
                        self.supply -= b;
                        e.pay.push((who, self.min + 1));
                        e.ret = Some(json!(true));
                    }
                    Some(_) => return None,
                    None => {
                        e.ret = Some(json!(false));
                        // keeping or returning the attached yocto is left open
                        e.open = true;
                    }
                }
            }
            _ => return None,
        }
        Some(e)
    }
    fn settle(&mut self, o: &mut Out, ev: &Exec, i: u64) {
        let p = self.pend[&i].clone();
        self.pend.get_mut(&i).unwrap().settled += 1;
        let again = p.settled;
        o.check(again == 0, C61, "settled_twice", || format!("{:?} settled again", p));
        let unused = match ev.results.first() {
            Some(PromiseResultC::Ok(v)) => serde_json::from_slice::<Value>(v).ok().and_then(|v| amt(&v)).map_or(p.amount, |u| u.min(p.amount)),
            _ => p.amount,
        };
        let have = self.bal.get(&p.receiver).cloned().unwrap_or(0);
        let back = unused.min(have);
        o.count(match (back, unused) {
            (0, 0) => "settled_all_used",
            (b, u) if b < u => "settled_receiver_short",
            (b, _) if b == p.amount => "settled_all_returned",
            _ => "settled_part_returned",
        });
        if back > 0 {
            *self.bal.get_mut(&p.receiver).unwrap() -= back;
            match self.bal.get_mut(&p.sender) {
                Some(b) => *b += back,
                None => {
                    o.count("settled_sender_gone");
                    self.supply -= back
                }
            }
        }
        let gone = !self.bal.contains_key(&p.sender);
        let used = p.amount - back;
        let r = ev.ret_json();
        o.check(r == Some(st(used)) || (gone && back > 0), C61, "used_report", || format!("{:?} settled: reported {:?} used, in fact {}", p, r, used));
        let out: Vec<_> = ev.sent().map(|r| (r.receiver.clone(), r.actions().iter().map(|a| a.name()).collect::<Vec<_>>())).collect();
        o.check(out.is_empty(), ALL, "settle_output", || format!("settlement of {:?} sent {:?}", p, out));
    }
    fn compare(&mut self, w: &mut World, o: &mut Out, what: &str, tags: &[&'static str]) {
        let sup = w.vu(W, "ft_total_supply", json!({}));
        let exp = self.supply;
        let mut t: Vec<&'static str> = tags.to_vec();
        if !t.contains(&"C60") {
            t.push("C60");
        }
        o.check(sup == Some(exp), &t, "supply", || format!("total supply {:?}, expected {} after {}", sup, exp, what));
        let mut sum = 0u128;
        for id in self.ids.clone() {
            let b = w.vu(W, "ft_balance_of", json!({ "account_id": id }));
            sum += b.unwrap_or(0);
            let e = self.bal.get(&id).cloned();
            o.check(b == Some(e.unwrap_or(0)), &t, "balance", || format!("{} has {:?}, expected {:?} after {}", id, b, e, what));
            let r = w.vj(W, "storage_balance_of", json!({ "account_id": id }));
            let e = match e {
                Some(_) => json!({"total": self.min.to_string(), "available": "0"}),
                None => Value::Null,
            };
            // the old release words this answer differently
            let total = |v: &Value| amt(&v["total"]).unwrap_or(0);
            let same = r == Some(e.clone()) || (self.old && r.as_ref().map_or(0, total) == total(&e));
            o.check(same, C62, "registration", || format!("storage balance of {} is {:?}, expected {} after {}", id, r, e, what));
        }
        o.check(sup == Some(sum), C60, "supply_sum", || format!("total supply {:?} but balances sum to {} after {}", sup, sum, what));
        let have = w.amount(W);
        let owed = self.supply + self.bal.len() as u128 * self.min;
        o.check(have >= owed, C602, "unbacked", || format!("contract holds {} but owes {} after {}", have, owed, what));
        let slack = have.saturating_sub(owed);
        let old = self.slack;
        o.check(slack >= old, C602, "own_tokens_spent", || format!("free tokens fell from {} to {} by {}", old, slack, what));
        self.slack = slack;
    }
    fn bounds(&self, w: &mut World, o: &mut Out) {
        let b = w.vj(W, "storage_balance_bounds", json!({})).unwrap_or(Value::Null);
        let min = amt(&b["min"]).unwrap_or(0);
        o.check(min > 0 && b["max"] == b["min"], C62, "bounds", || format!("storage bounds {}", b));
        // the older name of the same question
        let old = w.vj(W, "storage_minimum_balance", json!({})).unwrap_or(Value::Null);
        o.check(amt(&old) == Some(min), C62, "minimum", || format!("minimum {} but bounds {}", old, b));
        o.check(self.min == min, C62, "minimum_changed", || format!("minimum {} but it was {}", min, self.min));
    }
    fn reply(&self, r: &mut Rng, c: &Cfg) -> Reply {
        let mut rep = Reply::default();
        let x = 1u128 << c.scale;
        rep.value = match r.below(10) {
            0 => None,
            1 => Some("garbage".into()),
            2 => Some("5".into()),
            3 => Some("\"-1\"".into()),
            4 => Some(format!("\"{}\"", u128::MAX)),
            5 | 6 => Some("\"0\"".into()),
            _ => Some(format!("\"{}\"", r.amount(x))),
        };
        rep.fail = r.chance(1, 8);
        let n = if r.chance(c.calls, 100) { r.range(1, 2) } else { 0 };
        for _ in 0..n {
            let to = r.pick(&self.ids).clone();
            let a = st(r.amount(x));
            let one = "1".to_string();
            let call = match r.below(6) {
                0 | 1 => ("ft_transfer", json!({"receiver_id": to, "amount": a}), one, 20),
                2 => ("near_withdraw", json!({ "amount": a }), one, 20),
                3 => ("storage_unregister", json!({ "force": r.chance(3, 4) }), one, 20),
                4 => ("near_deposit", json!({}), r.amount(x).to_string(), 20),
                _ => ("ft_transfer_call", json!({"receiver_id": to, "amount": a, "msg": "nested"}), one, 80),
            };
            rep.calls.push((W.to_string(), call.0.to_string(), call.1, call.2, call.3 * TGAS));
        }
        rep.chain = n > 0 && r.chance(1, 5);
        rep
    }
}

impl Family for Wnear {
    fn config(r: &mut Rng, prop: &str) -> Value {
        let f = r.chance(3, 4);
        let mut d = |m: u64| if f && r.chance(1, 2) { r.range(1, m) } else { 0 };
        let (low_gas, bad, delete, fail) = (d(20), d(25), d(6), d(15));
        serde_json::to_value(Cfg {
            users: r.range(2, 4),
            scale: *r.pick(&[4u32, 30, 70, 75, 90]),
            low_gas,
            bad,
            delete,
            stray: r.below(5),
            proxy: r.below(10),
            calls: r.below(70),
            fail,
            deliver: *r.pick(&[0u64, 60, 150]),
            unregister: r.below(12),
            epoch: r.below(4),
            legacy: prop == "C63",
        })
        .unwrap()
    }
    fn setup(env: &Env, prop: &str, cfg: &Value) -> Driver<Self> {
        let cfg: Cfg = serde_json::from_value(cfg.clone()).unwrap();
        let mut w = env.world();
        w.contract(W, 100 * NEAR, &env.code(if cfg.legacy { "legacy-w-near" } else { "w-near" }));
        if cfg.legacy {
            // whoever holds the key can replace the code
            w.accounts.get_mut(W).unwrap().keys.insert(pk_of(W), Perm::Full);
        }
        let users: Vec<String> = (0..cfg.users).map(|i| format!("u{}.near", i)).collect();
        let mut ids = users.clone();
        for x in &["rcv1", "rcv2", "proxy"] {
            ids.push(x.to_string());
        }
        for u in &ids {
            w.create(u, 10_000_000_000 * NEAR);
        }
        w.create("outsider", 10_000_000_000 * NEAR);
        w.create("forger", 1_000_000 * NEAR);
        w.stubs.insert(("forger".into(), "*".into()), Reply::default());
        ids.push("forger".into());
        ids.push("long-account-name.with-several.parts.and-quite-some.length.near".into());
        for x in &["rcv1", "rcv2"] {
            w.stubs.insert((x.to_string(), "ft_on_transfer".into()), Reply { value: Some("\"0\"".into()), ..Default::default() });
        }
        let f = Wnear {
            cfg: cfg.clone(),
            bal: BTreeMap::new(),
            supply: 0,
            min: 0,
            ids,
            users,
            pend: BTreeMap::new(),
            next_pend: 0,
            trace: Trace::default(),
            started: false,
            slack: 0,
            old: cfg.legacy,
        };
        let mut d = Driver::new(w, f, prop);
        d.apply(&tx("outsider", W, "new", json!({}), 0, FULL_GAS));
        d.apply(&Step::Drain);
        let old = d.w.vj(W, "storage_minimum_balance", json!({})).unwrap_or(Value::Null);
        d.f.min = amt(&old).unwrap_or(0);
        if !cfg.legacy {
            let Driver { w, f, o, .. } = &mut d;
            f.bounds(w, o);
        }
        d.f.slack = d.w.amount(W);
        d.f.started = true;
        let mut first = vec!["rcv1".to_string(), "rcv2".to_string()];
        if cfg.legacy {
            first.extend(d.f.users.iter().skip(1).cloned());
        }
        for x in first {
            let min = d.f.min;
            d.call("outsider", W, "storage_deposit", json!({ "account_id": x }), min);
        }
        d
    }
    fn relay(&self) -> Option<&'static str> {
        Some("forger")
    }

    fn watched(&self) -> Vec<String> {
        vec![W.into()]
    }
    fn next(&mut self, w: &mut World, r: &mut Rng, _o: &mut Out) -> Step {
        let c = self.cfg.clone();
        let busy = !w.queues.is_empty();
        let wts = [60, c.unregister, if busy { c.deliver } else { 0 }, if busy { 40 } else { 0 }, 8, c.delete, c.proxy, c.stray, c.fail, 2, c.epoch, match (self.old, self.pend.is_empty()) {
            (false, _) => 0,
            (_, idle) => if idle { 2 } else { 12 },
        }];
        let x = 1u128 << c.scale;
        let mut who = r.pick(&self.users).clone();
        if self.bal.get(&who).map_or(true, |b| *b == 0) && r.chance(1, 2) {
            who = r.pick(&self.users).clone();
        }
        let g = if r.chance(c.low_gas, 100) { r.range(20, 80) * TGAS } else { gas(r, c.low_gas) };
        let bad = r.chance(c.bad, 100);
        let one = if bad && r.chance(1, 3) || r.chance(1, 30) { *r.pick(&[0, 0, 2, NEAR]) } else { 1 };
        let b = self.bal.get(&who).cloned().unwrap_or(0);
        let own = |r: &mut Rng| if bad && r.chance(1, 2) { st(b + r.amount(x)) } else { st(r.amount(b).max((!bad) as u128)) };
        let any = |r: &mut Rng| {
            if bad && r.chance(1, 4) {
                r.pick(&["Bad!", "", "nobody.near"]).to_string()
            } else {
                r.pick(&self.ids).clone()
            }
        };
        match r.weighted(&wts) {
            0 => match r.below(12) {
                0..=2 => {
                    let d = match r.below(6) {
                        0 => self.min,
                        1 => self.min - 1,
                        2 => self.min + 1,
                        3 if bad => 0,
                        _ => r.amount(x) + if r.chance(1, 2) { self.min } else { 0 },
                    };
                    tx(&who, W, "near_deposit", json!({}), d, g)
                }
                3 | 4 => tx(&who, W, "near_withdraw", json!({ "amount": own(r) }), one, g),
                5 => {
                    let d = match r.below(5) {
                        0 => 0,
                        1 => self.min - 1,
                        2 => self.min + r.amount(x),
                        _ => self.min,
                    };
                    let mut a = json!({});
                    if r.chance(2, 3) {
                        a["account_id"] = json!(any(r));
                    }
                    if r.chance(1, 3) {
                        a["registration_only"] = json!(r.chance(1, 2));
                    }
                    tx(&who, W, "storage_deposit", a, d, g)
                }
                6 | 7 => tx(&who, W, "ft_transfer", json!({"receiver_id": any(r), "amount": own(r), "memo": if r.chance(1, 4) { json!("m") } else { Value::Null }}), one, g),
                8 => {
                    let am = if r.chance(1, 2) { Value::Null } else { st(r.below(2) as u128) };
                    tx(&who, W, "storage_withdraw", json!({ "amount": am }), one, g)
                }
                _ => {
                    let to = if r.chance(2, 3) { r.pick(&["rcv1", "rcv2"]).to_string() } else { any(r) };
                    tx(&who, W, "ft_transfer_call", json!({"receiver_id": to, "amount": own(r), "msg": format!("m{}", r.below(9))}), one, g)
                }
            },
            1 => {
                let a = match r.below(4) {
                    0 => json!({}),
                    1 => json!({ "force": false }),
                    _ => json!({ "force": true }),
                };
                tx(&who, W, "storage_unregister", a, one, g)
            }
            2 => pick_channel(w, r).unwrap(),
            3 => Step::Drain,
            4 => Step::Stub { to: r.pick(&["rcv1", "rcv2"]).to_string(), method: "ft_on_transfer".into(), reply: self.reply(r, &c) },
            5 => {
                if w.exists(&who) {
                    Step::Delete { account: who, beneficiary: "outsider".into() }
                } else {
                    Step::Create { account: who, amount: 10_000_000 * NEAR }
                }
            }
            6 => {
                if r.chance(1, 2) {
                    let rep = self.reply(r, &Cfg { calls: 100, ..c });
                    Step::Stub { to: "proxy".into(), method: "go".into(), reply: Reply { fail: false, ..rep } }
                } else {
                    tx(&who, "proxy", "go", json!({}), 0, FULL_GAS)
                }
            }
            7 => Step::Send { from: "outsider".into(), to: W.into(), amount: r.amount(x) },
            8 => Step::Fail { to: r.pick(&["rcv1", "rcv2"]).to_string(), method: "ft_on_transfer".into(), n: r.range(1, 2) as u32 },
            9 => match r.below(3) {
                0 => tx(&who, W, "new", json!({}), 0, FULL_GAS),
                _ => {
                    let a = json!({"sender_id": who, "receiver_id": any(r), "amount": st(r.amount(x))});
                    match r.below(4) {
                        0 => tx(&who, W, "ft_resolve_transfer", a, 0, FULL_GAS),
                        1 => forge(&who, "forger", W, "ft_resolve_transfer", a, None),
                        2 => forge(&who, "forger", W, "ft_resolve_transfer", a, Some("\"0\"")),
                        _ => {
                            let all = format!("\"{}\"", r.amount(x));
                            forge(&who, "forger", W, "ft_resolve_transfer", a, Some(&all))
                        }
                    }
                }
            },
            10 => epoch_step(vec![], vec![]),
            _ => Step::Code { account: W.into(), code: "w-near".into() },
        }
    }
    fn exec(&mut self, w: &mut World, o: &mut Out, ev: &Exec) {
        let tagged = self.trace.follow(ev);
        if !self.started {
            if ev.receipt.method().is_some() {
                o.check(ev.ok, ALL, "init_failed", || ev.err.clone());
            }
            return;
        }
        if let Some(i) = tagged {
            // nested activity of the receiver is followed as part of the transfer-call, but has its own rules
            let p = self.pend.get_mut(&i).unwrap();
            if ev.receipt.predecessor == W && ev.receipt.receiver == p.receiver && ev.receipt.method() == Some("ft_on_transfer") && p.asked == 0 {
                p.asked += 1;
            }
        }
        if ev.receipt.receiver == W && !ev.receipt.is_refund() {
            if let Some(m) = ev.receipt.method() {
                let m = m.to_string();
                let what = format!("{} {} by {} with {}", m, args_json(&ev.receipt), ev.receipt.predecessor, ev.receipt.deposit());
                if ev.receipt.predecessor == W {
                    // only a transfer-call's continuation
                    match tagged {
                        Some(i) => {
                            o.check(ev.ok, C61, "settlement_failed", || format!("{} failed: {}", what, ev.err));
                            if ev.ok {
                                self.settle(o, ev, i);
                            }
                        }
                        None => o.fail(ALL, "unasked_self_call", what.clone()),
                    }
                    self.compare(w, o, &what, C61);
                } else {
                    self.user_call(w, o, ev, &m, &what);
                }
            } else if ev.ok {
                if ev.receipt.actions().iter().any(|a| if let Action::Deploy(_) = a { true } else { false }) {
                    self.old = false;
                    o.count(if self.pend.is_empty() { "upgraded_idle" } else { "upgraded_with_transfers_in_flight" });
                    self.bounds(w, o);
                }
                self.compare(w, o, "a transfer in", C60);
            }
        } else if ev.receipt.receiver == W {
            self.compare(w, o, "a returned transfer", C60);
        }
        let done: Vec<u64> = self.pend.keys().cloned().filter(|i| self.trace.done(*i)).collect();
        for i in done {
            let p = self.pend.remove(&i).unwrap();
            o.check(p.settled == 1, C61, "unsettled", || format!("{:?} ended with {} settlements", p, p.settled));
            o.check(p.asked == 1, C61, "receiver_not_asked", || format!("{:?}: receiver asked {} times", p, p.asked));
        }
    }
    fn after(&mut self, w: &mut World, _o: &mut Out, s: &Step) {
        if let Step::Code { .. } = s {
            // the account pays for the deployment from its own free tokens
            self.slack = w.amount(W).saturating_sub(self.supply + self.bal.len() as u128 * self.min);
        }
    }
    fn close(d: &mut Driver<Self>) {
        d.apply(&Step::Drain);
        if d.f.old {
            d.apply(&Step::Code { account: W.into(), code: "w-near".into() });
            d.apply(&Step::Drain);
        }
        let n = d.f.pend.len();
        d.o.check(n == 0, C61, "unsettled_end", || format!("{} transfer-calls never settled", n));
        // Everybody unwraps everything and leaves.
        for id in d.f.users.clone() {
            if !d.w.exists(&id) {
                d.apply(&Step::Create { account: id.clone(), amount: NEAR * 100 });
            }
            if let Some(b) = d.f.bal.get(&id).cloned() {
                let before = d.w.amount(&id);
                if b > 0 {
                    d.call(&id, W, "near_withdraw", json!({ "amount": st(b) }), 1);
                }
                d.call(&id, W, "storage_unregister", json!({}), 1);
                let got = d.w.amount(&id) + NEAR - before;
                let min = d.f.min;
                d.o.check(!d.f.bal.contains_key(&id) && got + 1 > b + min && got > b + min + NEAR / 2, C602, "not_redeemable", || {
                    format!("{} had {} wrapped, got {} back", id, b, got.saturating_sub(NEAR))
                });
            }
        }
    }
}
impl Wnear {
    fn user_call(&mut self, w: &mut World, o: &mut Out, ev: &Exec, m: &str, what: &str) {
        let tags: &[&'static str] = match m {
            "near_deposit" => C602,
            "near_withdraw" => C60,
            "ft_transfer" | "ft_transfer_call" | "ft_resolve_transfer" => C61,
            "storage_deposit" | "storage_withdraw" | "storage_unregister" => C62,
            _ => ALL,
        };
        let (b0, s0) = (self.bal.clone(), self.supply);
        let v = self.model(ev);
        // the old release has stricter rules of its own for registering
        let open = v.as_ref().map_or(false, |e| e.open) || (self.old && m.starts_with("storage_"));
        if v.is_none() || !ev.ok {
            self.bal = b0;
            self.supply = s0;
        }
        match (&v, ev.ok) {
            (None, true) => o.fail(if tags == C61 { ALL } else { C602 }, &format!("accepted_{}", m), format!("{} accepted, should be refused", what)),
            (Some(_), false) => o.check(env_failure(ev) || open || (m == "ft_transfer_call" && ev.receipt.gas() < 60 * TGAS), tags, &format!("refused_{}", m), || format!("{} failed: {}", what, ev.err)),
            (None, false) => o.count("refused_calls"),
            (Some(e), true) => {
                o.count(&format!("ok_{}", m));
                let pays = transfers(ev);
                o.check(pays == e.pay || e.open, tags, "payout", || format!("{} paid {:?}, expected {:?}", what, pays, e.pay));
                if let Some(x) = &e.ret {
                    let r = ev.ret_json();
                    o.check(r.as_ref() == Some(x) || self.old, tags, "answer", || format!("{} answered {:?}, expected {}", what, r, x));
                }
                let calls: Vec<_> = ev.sent().filter(|r| r.receiver != W && r.method().is_some()).collect();
                match &e.call {
                    None => o.check(calls.is_empty(), tags, "unasked_call", || format!("{} called {:?}", what, calls.len())),
                    Some((to, x, msg)) => {
                        let ok = calls.len() == 1
                            && calls[0].is_call_to(to, "ft_on_transfer")
                            && calls[0].deposit() == 0
                            && args_json(calls[0]) == json!({"sender_id": ev.receipt.predecessor, "amount": x.to_string(), "msg": msg});
                        o.check(ok, C61, "receiver_call", || format!("{} sent {:?}", what, calls));
                        let i = self.next_pend;
                        self.next_pend += 1;
                        self.trace.add(i, ev);
                        self.pend.insert(i, Pending { sender: ev.receipt.predecessor.clone(), receiver: to.clone(), amount: *x, settled: 0, asked: 0 });
                    }
                }
            }
        }
        if ev.fail == Some(Fail::Gas) {
            w.stats.fault("out_of_gas_call");
        }
        self.compare(w, o, what, tags);
    }
}
