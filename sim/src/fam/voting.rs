//! Voting: validators with changing stakes vote, withdraw and ping across epochs.
use super::common::*;
use crate::engine::Env;
use crate::sim::*;
use crate::util::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub const V: &str = "voting";
const T: &[&str] = &["C40"];

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Cfg {
    n: u64,
    /// log2 of the largest stake
    scale: u32,
    low_gas: u64,
    epoch: u64,
    kick: u64,
    stake: u64,
    withdraw: u64,
    deliver: u64,
    /// how often (of 100) a vote that would pass is allowed
    pass: u64,
    /// initial stakes
    stakes: Vec<String>,
}
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub votes: BTreeMap<String, u128>,
    total: u128,
    last_epoch: u64,
    pub result: Option<u64>,
}
impl Model {
    fn check(&mut self, all: u128, time: u64) {
        // strictly more than two thirds
        if mul_cmp(self.total, 3, all, 2) == std::cmp::Ordering::Greater {
            self.result = Some(time);
        }
    }
    /// Err: refused.
    pub fn call(&mut self, w: &World, ev: &Exec) -> Result<(), ()> {
        let stake = |a: &str| w.val.stakes.get(a).map_or(0, |s| s[0]);
        let all: u128 = w.val.stakes.values().map(|s| s[0]).sum();
        let m = ev.receipt.method().unwrap_or("");
        let who = &ev.receipt.predecessor;
        if ev.receipt.deposit() > 0 || self.result.is_some() || (m != "vote" && m != "ping") {
            return Err(());
        }
        let arg = match m {
            "vote" => Some(args_json(&ev.receipt)["is_vote"].as_bool().ok_or(())?),
            _ => None,
        };
        if self.last_epoch != ev.epoch {
            self.last_epoch = ev.epoch;
            self.votes = self.votes.keys().map(|k| (k.clone(), stake(k))).filter(|x| x.1 > 0).collect();
            self.total = self.votes.values().sum();
            self.check(all, ev.time);
        }
        if let (Some(b), None) = (arg, self.result) {
            if b && stake(who) == 0 {
                return Err(());
            }
            self.votes.remove(who);
            if b {
                self.votes.insert(who.clone(), stake(who));
            }
            self.total = self.votes.values().sum();
            self.check(all, ev.time);
        }
        Ok(())
    }
}
pub struct Voting {
    cfg: Cfg,
    m: Model,
    ids: Vec<String>,
    started: bool,
}
fn draw(r: &mut Rng, scale: u32) -> u128 {
    match r.below(8) {
        0 => 1,
        1 => 2,
        2 => 1 + r.below(6) as u128,
        _ => r.amount(1 << scale),
    }
}
/// The contract's views against the model.
pub fn compare(m: &Model, w: &mut World, o: &mut Out, tags: &[&'static str], what: &str) {
    let res = w.vj(V, "get_result", json!({}));
    let exp = m.result.map_or(Value::Null, |t| json!(t.to_string()));
    o.check(res == Some(exp.clone()), tags, "result", || {
        format!("result is {:?}, expected {} after {} (votes {:?}, total {}, stakes {:?})", res, exp, what, m.votes, m.total,
            w.val.stakes.iter().map(|(k, v)| (k, v[0])).collect::<Vec<_>>())
    });
    let all: u128 = w.val.stakes.values().map(|s| s[0]).sum();
    let tot = w.vj(V, "get_total_voted_stake", json!({}));
    let exp = json!([m.total.to_string(), all.to_string()]);
    o.check(tot == Some(exp.clone()), tags, "totals", || format!("totals {:?}, expected {} after {}", tot, exp, what));
    let v = w.vj(V, "get_votes", json!({}));
    let exp: BTreeMap<_, _> = m.votes.iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
    o.check(v == Some(json!(exp)), tags, "votes", || format!("votes {:?}, expected {:?} after {}", v, exp, what));
}
impl Family for Voting {
    fn config(r: &mut Rng, _prop: &str) -> Value {
        let scale = *r.pick(&[2u32, 6, 60, 100, 118]);
        let crowd = r.chance(1, 25);
        let n = if crowd { r.range(20, 90) } else { r.range(1, 9) };
        let f = r.chance(2, 3);
        serde_json::to_value(Cfg {
            n,
            scale,
            low_gas: if f { r.below(12) } else { 0 },
            epoch: r.range(3, 30),
            kick: if f { r.below(35) } else { 0 },
            stake: r.below(20),
            withdraw: r.range(5, 50),
            deliver: *r.pick(&[0u64, 40, 100]),
            pass: *r.pick(&[1u64, 5, 30]),
            stakes: (0..n)
                .map(|_| if r.chance(1, 6) { 0 } else if r.chance(1, 3) { 1 << (scale / 2) } else { draw(r, scale) })
                .map(|x: u128| x.to_string())
                .collect(),
        })
        .unwrap()
    }
    fn setup(env: &Env, prop: &str, cfg: &Value) -> Driver<Self> {
        let cfg: Cfg = serde_json::from_value(cfg.clone()).unwrap();
        let mut w = env.world();
        w.contract(V, 100 * NEAR, &env.code("voting"));
        let ids: Vec<String> = (0..cfg.n).map(|i| format!("v{}.near", i)).collect();
        for (i, id) in ids.iter().enumerate() {
            w.create(id, 1_000_000 * NEAR);
            let s: u128 = cfg.stakes[i].parse().unwrap();
            if s > 0 {
                w.val.stakes.insert(id.clone(), [s, s, s]);
            }
        }
        w.create("outsider", 1_000_000 * NEAR);
        w.create("relay", 1_000_000 * NEAR);
        w.stubs.insert(("relay".into(), "*".into()), Reply::default());
        w.val.min_stake = 0;
        let f = Voting { cfg, m: Model::default(), ids, started: false };
        let mut d = Driver::new(w, f, prop);
        d.apply(&tx("outsider", V, "new", json!({}), 0, FULL_GAS));
        d.apply(&Step::Drain);
        d.f.started = true;
        // a large electorate, most of which has voted already
        let n = d.f.ids.len();
        if n > 9 {
            for i in 0..n / 2 + n / 10 {
                let id = d.f.ids[i].clone();
                d.apply(&tx(&id, V, "vote", json!({ "is_vote": true }), 0, FULL_GAS));
                if i % 10 == 9 {
                    d.apply(&Step::Drain);
                }
            }
            d.apply(&Step::Drain);
        }
        d
    }
    fn relay(&self) -> Option<&'static str> {
        Some("relay")
    }
    fn watched(&self) -> Vec<String> {
        vec![V.into()]
    }
    fn next(&mut self, w: &mut World, r: &mut Rng, o: &mut Out) -> Step {
        let c = self.cfg.clone();
        let busy = !w.queues.is_empty();
        let g = gas(r, c.low_gas);
        match r.weighted(&[50, 8, if busy { c.deliver } else { 0 }, if busy { 30 } else { 0 }, c.epoch, c.stake, 4, 3]) {
            0 => {
                let who = if r.chance(1, 12) { "outsider".to_string() } else { r.pick(&self.ids).clone() };
                let mut b = !r.chance(c.withdraw, 100);
                if b && self.m.result.is_none() {
                    let st = |a: &String| w.val.stakes.get(a).map_or(0, |s| s[0]);
                    let sum: u128 = self.m.votes.keys().filter(|a| **a != who).map(st).sum::<u128>() + st(&who);
                    let all: u128 = w.val.stakes.values().map(|s| s[0]).sum();
                    if mul_cmp(sum, 3, all, 2) == std::cmp::Ordering::Greater && !r.chance(c.pass, 100) {
                        b = false;
                    }
                    if mul_cmp(sum, 3, all, 2) == std::cmp::Ordering::Equal && all > 0 {
                        o.count("votes_of_exactly_two_thirds");
                    }
                }
                tx(&who, V, "vote", json!({ "is_vote": b }), (r.below(30) == 0) as u128, g)
            }
            1 => tx("outsider", V, "ping", json!({}), 0, g),
            2 => pick_channel(w, r).unwrap(),
            3 => Step::Drain,
            4 => {
                let mut rw = vec![];
                for id in &self.ids {
                    if r.chance(1, 4) {
                        rw.push((id.clone(), r.amount(1 << (c.scale / 2))));
                    }
                }
                let kick = self.ids.iter().filter(|_| r.chance(c.kick, 300)).cloned().collect();
                epoch_step(rw, kick)
            }
            5 => {
                // a validator proposes another stake; often one that makes two thirds exact
                let who = r.pick(&self.ids).clone();
                let others: u128 = w.val.stakes.iter().filter(|(k, _)| **k != who).map(|(_, s)| s[2]).sum();
                let v = match r.below(7) {
                    0 => 0,
                    1 => others * 2,
                    2 => others / 2,
                    3 => (others * 2).saturating_add(1),
                    4 => w.val.stakes.get(&who).map_or(0, |s| s[2]),
                    _ => draw(r, c.scale),
                };
                Step::Propose { account: who, v: v.min(1 << 121) }
            }
            6 => Step::Time { ns: r.amount(1 << 60) as u64 },
            _ => tx(&r.pick(&self.ids).clone(), V, "new", json!({}), 0, g),
        }
    }
    fn exec(&mut self, w: &mut World, o: &mut Out, ev: &Exec) {
        if ev.receipt.receiver != V || ev.receipt.is_refund() {
            return;
        }
        let m = match ev.receipt.method() {
            Some(m) => m.to_string(),
            None => return,
        };
        if !self.started {
            o.check(ev.ok, T, "init_failed", || ev.err.clone());
            compare(&self.m, w, o, T, "new");
            return;
        }
        let before = self.m.clone();
        let v = self.m.call(w, ev);
        if v.is_err() || !ev.ok {
            self.m = before.clone();
        }
        if m == "vote" && ev.ok && before.result.is_none() && self.m.result.is_some() {
            o.count("passed_by_vote");
        }
        if m == "ping" && ev.ok && before.result.is_none() && self.m.result.is_some() {
            o.count("passed_by_ping");
        }
        let what = format!("{} {} by {} in epoch {}", m, args_json(&ev.receipt), ev.receipt.predecessor, ev.epoch);
        match (v, ev.ok) {
            (Err(()), true) => o.fail(T, "accepted", format!("{} accepted, should be refused", what)),
            (Ok(()), false) => o.check(env_failure(ev), T, "refused", || format!("{} failed: {}", what, ev.err)),
            (Err(()), false) => o.count("refused_calls"),
            _ => o.count(&format!("ok_{}", m)),
        }
        let out: Vec<_> = ev.sent().collect();
        o.check(out.is_empty(), T, "output", || format!("{} sent {:?}", what, out));
        compare(&self.m, w, o, T, &what);
    }
    fn after(&mut self, w: &mut World, o: &mut Out, s: &Step) {
        if let Step::Epoch { .. } = s {
            compare(&self.m, w, o, T, "epoch switch");
        }
    }
    fn close(d: &mut Driver<Self>) {
        d.apply(&Step::Drain);
        // A refresh in a new epoch, then everybody with stake votes: it must pass.
        d.apply(&epoch_step(vec![], vec![]));
        d.call("outsider", V, "ping", json!({}), 0);
        for id in d.f.ids.clone() {
            d.call(&id, V, "vote", json!({"is_vote": true}), 0);
        }
        let any = d.w.val.stakes.values().any(|s| s[0] > 0);
        let res = d.w.vj(V, "get_result", json!({}));
        d.o.check(!any || res.map_or(false, |r| r.is_string()), T, "never_passes", || "all stake votes, no result".into());
        d.apply(&epoch_step(vec![], vec![]));
        d.call("outsider", V, "ping", json!({}), 0);
        d.call("v0.near", V, "vote", json!({"is_vote": false}), 0);
    }
}
