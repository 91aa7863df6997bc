//! Helpers shared by the families.
use crate::sim::*;
use crate::util::Rng;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub fn u(v: &Value) -> Option<u128> {
    as_u128(v)
}
pub fn s(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}
pub fn st(x: u128) -> Value {
    json!(x.to_string())
}
pub fn tx(from: &str, to: &str, method: &str, args: Value, deposit: u128, gas: u64) -> Step {
    Step::Tx { from: from.into(), key: None, to: to.into(), method: method.into(), args, deposit, gas }
}
/// Attached gas: usually plenty, sometimes too little.
pub fn gas(rng: &mut Rng, low: u64) -> u64 {
    if rng.chance(low, 100) {
        let top = *rng.pick(&[8, 30, 120]);
        rng.range(1, top) * TGAS
    } else {
        FULL_GAS
    }
}
pub const FULL_GAS: u64 = 300 * TGAS;

/// Was this failure something the environment did (not the contract's decision)?
pub fn env_failure(ev: &Exec) -> bool {
    match ev.fail {
        Some(Fail::Injected) => true,
        // Out of gas is the caller's fault only if little was attached.
        Some(Fail::Gas) => ev.receipt.gas() < FULL_GAS,
        _ => false,
    }
}
pub fn epoch_step(rewards: Vec<(String, u128)>, kick: Vec<String>) -> Step {
    Step::Epoch {
        rewards: rewards.into_iter().map(|(k, v)| (k, v.to_string())).collect::<BTreeMap<_, _>>(),
        kick: kick.into_iter().collect::<BTreeSet<_>>(),
    }
}
/// JSON arguments of a call.
pub fn args_json(r: &Receipt) -> Value {
    serde_json::from_slice(r.args()).unwrap_or(Value::Null)
}

/// Follows everything that one call caused, across receipts, callbacks and refunds.
#[derive(Default, Clone)]
pub struct Trace {
    tag: BTreeMap<u64, u64>,
    live: BTreeMap<u64, usize>,
}
impl Trace {
    /// The outputs of `ev` belong to `id`.
    pub fn add(&mut self, id: u64, ev: &Exec) {
        for r in &ev.out {
            if let Kind::Action(_) = r.kind {
                if let Some(old) = self.tag.insert(r.id, id) {
                    *self.live.get_mut(&old).unwrap() -= 1;
                }
                *self.live.entry(id).or_default() += 1;
            }
        }
    }
    /// To be called with every execution: what does it belong to?
    pub fn follow(&mut self, ev: &Exec) -> Option<u64> {
        let id = self.tag.remove(&ev.receipt.id)?;
        *self.live.get_mut(&id).unwrap() -= 1;
        self.add(id, ev);
        Some(id)
    }
    /// Nothing that belongs to `id` is in flight any more.
    pub fn done(&self, id: u64) -> bool {
        self.live.get(&id).map_or(true, |n| *n == 0)
    }
}
/// Tokens the execution sent to others in plain transfers (refunds excluded).
pub fn transfers(ev: &Exec) -> Vec<(String, u128)> {
    let mut v = vec![];
    for r in ev.sent() {
        for a in r.actions() {
            if let Action::Transfer(d) = a {
                v.push((r.receiver.clone(), *d));
            }
        }
    }
    v
}
/// A programmable contract calls `to`.
pub fn proxy(p: &str, to: &str, method: &str, args: Value, deposit: u128, gas: u64) -> Step {
    let calls = vec![(to.to_string(), method.to_string(), args, deposit.to_string(), gas)];
    Step::Stub { to: p.into(), method: "go".into(), reply: Reply { calls, ..Default::default() } }
}
/// One transaction to the programmable contract `p`, which makes these calls; with `then`
/// each is the callback of the one before.
pub fn script(from: &str, p: &str, calls: Vec<(String, String, Value, String, u64)>, then: bool) -> Step {
    let a = serde_json::to_value(Reply { calls, then, ..Default::default() }).unwrap();
    tx(from, p, "do", a, 0, FULL_GAS)
}
/// A forged callback: the outsider contract `p` calls `to` as the callback of a promise whose
/// result (`Some`: value, `None`: failure) it chose itself.
pub fn forge(from: &str, p: &str, to: &str, method: &str, args: Value, result: Option<&str>) -> Step {
    let m = result.map_or("fail".to_string(), |t| format!("ret:{}", t));
    script(
        from,
        p,
        vec![
            (p.into(), m, Value::Null, "0".into(), 5 * TGAS),
            (to.into(), method.into(), args, "0".into(), 150 * TGAS),
        ],
        true,
    )
}
