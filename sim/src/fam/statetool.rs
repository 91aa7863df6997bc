//! The state tools, deployed over an account whose state another contract left behind.
use super::common::*;
use crate::engine::Env;
use crate::sim::*;
use crate::util::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

const A: &str = "app";
const T: &[&str] = &["C70"];
const TOOLS: &[&str] = &["state_all", "state_clean", "state_replace"];

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Cfg {
    tool: String,
    /// Accounts that used the earlier contract.
    users: u64,
    /// Entries of an earlier, unknown contract.
    junk: u64,
    /// Tokens beyond what the code needs for its storage.
    #[serde(with = "dec")]
    spare: u128,
    low_gas: u64,
    long: u64,
    bad: u64,
    deploy: u64,
    deliver: u64,
}
pub struct StateTool {
    cfg: Cfg,
    code: String,
    /// The state as of the last receipt, and all keys that ever were in it.
    st: Storage,
    seen: Vec<Vec<u8>>,
    n: u64,
}
enum Want {
    /// The state afterwards.
    State(Storage),
    Refused,
    Unknown,
}
fn b64(v: &Value) -> Option<Vec<u8>> {
    base64::decode(v.as_str()?).ok()
}
fn random_bytes(r: &mut Rng, max: u64) -> Vec<u8> {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        _ => r.below(max),
    };
    (0..n).map(|_| if r.chance(1, 5) { *r.pick(&[0u8, 255, b'"', b'{', b'=']) } else { r.below(256) as u8 }).collect()
}
impl StateTool {
    fn key(&self, r: &mut Rng) -> Vec<u8> {
        match r.below(10) {
            0..=5 if !self.seen.is_empty() => r.pick(&self.seen).clone(),
            6 if !self.seen.is_empty() => {
                // close to one that is there
                let mut k = r.pick(&self.seen).clone();
                match r.below(3) {
                    0 => {
                        k.pop();
                    }
                    1 => k.push(r.below(256) as u8),
                    _ => {
                        if let Some(b) = k.last_mut() {
                            *b ^= 1
                        }
                    }
                }
                k
            }
            _ => random_bytes(r, 40),
        }
    }
    fn count(&self, r: &mut Rng) -> u64 {
        match r.below(8) {
            0 => 0,
            1 => 1,
            _ if r.chance(self.cfg.long, 100) => r.range(40, 400),
            _ => r.range(1, 12),
        }
    }
    /// Arguments of a call, sometimes with one malformed place.
    fn args(&self, r: &mut Rng, clean: bool) -> Value {
        let n = self.count(r);
        let enc = |b: &[u8]| json!(base64::encode(b));
        let mut v: Vec<Value> = (0..n)
            .map(|_| {
                let k = self.key(r);
                if clean {
                    enc(&k)
                } else {
                    let x = random_bytes(r, 200);
                    json!([enc(&k), enc(&x)])
                }
            })
            .collect();
        if n > 1 && r.chance(1, 4) {
            // twice the same
            let x = v[r.below(n) as usize].clone();
            v.push(x);
        }
        if r.chance(self.cfg.bad, 100) {
            let not = |r: &mut Rng| r.pick(&[json!("!"), json!("YQ=YQ"), json!("abc"), json!(7), Value::Null, json!(["YQ=="]), json!("YQ==\n")]).clone();
            let at = if v.is_empty() { 0 } else { r.below(v.len() as u64 + 1) as usize };
            let x = if clean {
                not(r)
            } else {
                match r.below(5) {
                    0 => json!([enc(b"k"), not(r)]),
                    1 => json!([not(r), enc(b"v")]),
                    2 => json!([enc(b"k")]),
                    3 => json!([enc(b"k"), enc(b"v"), enc(b"w")]),
                    _ => not(r),
                }
            };
            v.insert(at, x);
            if r.chance(1, 6) {
                return r.pick(&[Value::Null, json!("x"), json!({}), json!(5), json!({ "keys": 1, "entries": 2 })]).clone();
            }
        }
        if clean {
            json!({ "keys": v })
        } else {
            json!({ "entries": v })
        }
    }
    fn want(&self, code: &str, m: &str, a: &Value) -> Want {
        let has = match (code, m) {
            ("state_all", "clean") | ("state_all", "replace") | ("state_clean", "clean") | ("state_replace", "replace") => true,
            (c, _) => {
                if !TOOLS.contains(&c) {
                    return Want::Unknown;
                }
                false
            }
        };
        if !has {
            return Want::Refused;
        }
        let mut st = self.st.clone();
        let ok = (|| {
            if m == "clean" {
                for k in a.get("keys")?.as_array()? {
                    st.remove(&b64(k)?);
                }
            } else {
                for e in a.get("entries")?.as_array()? {
                    match &e.as_array()?[..] {
                        [k, v] => {
                            st.insert(b64(k)?, b64(v)?);
                        }
                        _ => return None,
                    }
                }
            }
            Some(())
        })();
        match ok {
            Some(()) => Want::State(st),
            None => Want::Refused,
        }
    }
}
fn show(a: &Storage, b: &Storage) -> String {
    let mut v = vec![];
    for k in a.keys().chain(b.keys()) {
        if a.get(k) != b.get(k) && v.len() < 3 {
            v.push(format!("{}: {:?} but {:?}", base64::encode(k), a.get(k).map(base64::encode), b.get(k).map(base64::encode)));
        }
    }
    v.join(", ")
}

impl Family for StateTool {
    fn config(r: &mut Rng, _prop: &str) -> Value {
        let f = r.chance(3, 4);
        serde_json::to_value(Cfg {
            tool: r.pick(TOOLS).to_string(),
            users: r.below(6),
            junk: *r.pick(&[0, 3, 30, 200]),
            spare: if r.chance(1, 3) { r.amount(NEAR / 100) } else { 1000 * NEAR },
            low_gas: if f { r.below(40) } else { 0 },
            long: if r.chance(1, 3) { 30 } else { 0 },
            bad: if f { r.below(40) } else { 0 },
            deploy: r.below(8),
            deliver: *r.pick(&[0, 30, 60]),
        })
        .unwrap()
    }
    fn setup(env: &Env, prop: &str, cfg: &Value) -> Driver<Self> {
        let cfg: Cfg = serde_json::from_value(cfg.clone()).unwrap();
        let mut w = env.world();
        w.create(A, 1000 * NEAR);
        w.deploy(A, &env.code("w-near"));
        for u in &["alice", "bob", "eve"] {
            w.create(u, 1_000_000 * NEAR);
        }
        let tool = cfg.tool.clone();
        let f = StateTool { cfg: cfg.clone(), code: "w-near".into(), st: Storage::new(), seen: vec![], n: 0 };
        let mut d = Driver::new(w, f, prop);
        // an earlier life of the account
        d.call("alice", A, "new", json!({}), 0);
        for i in 0..cfg.users {
            let id = format!("user{}.near", i);
            d.w.create(&id, 1000 * NEAR);
            d.call(&id, A, "near_deposit", json!({}), NEAR + i as u128);
        }
        let mut r = Rng::new(cfg.junk ^ cfg.users << 20);
        if cfg.junk > 0 {
            let v: Vec<Value> = (0..cfg.junk).map(|_| json!([base64::encode(&random_bytes(&mut r, 30)), base64::encode(&random_bytes(&mut r, 60))])).collect();
            d.apply(&Step::Code { account: A.into(), code: "state_all".into() });
            d.apply(&Step::Drain);
            for c in v.chunks(50) {
                d.call("bob", A, "replace", json!({ "entries": c }), 0);
            }
        }
        d.apply(&Step::Code { account: A.into(), code: tool });
        d.apply(&Step::Drain);
        if cfg.spare < NEAR {
            // little is left for storage
            let a = &d.w.accounts[A];
            let need = a.usage as u128 * d.w.cfg.storage_price + cfg.spare;
            let fee = NEAR / 100;
            if a.amount > need + fee {
                let x = a.amount - need - fee;
                d.apply(&Step::Send { from: A.into(), to: "bob".into(), amount: x });
                d.apply(&Step::Drain);
            }
        }
        d
    }
    fn watched(&self) -> Vec<String> {
        vec![A.into()]
    }
    fn next(&mut self, w: &mut World, r: &mut Rng, _o: &mut Out) -> Step {
        let busy = !w.queues.is_empty();
        let c = &self.cfg;
        match r.weighted(&[50, if busy { c.deliver } else { 0 }, if busy { 25 } else { 0 }, c.deploy, 3]) {
            0 => {
                let who = r.pick(&["alice", "bob", "eve", A]).to_string();
                let tool = TOOLS.contains(&&*self.code);
                if !tool || r.chance(1, 20) {
                    return tx(&who, A, "near_deposit", json!({}), if who == A { NEAR / 1000 } else { NEAR }, gas(r, c.low_gas));
                }
                let clean = match &*self.code {
                    "state_clean" => !r.chance(1, 8),
                    "state_replace" => r.chance(1, 8),
                    _ => r.chance(1, 2),
                };
                let a = self.args(r, clean);
                let g = if r.chance(c.low_gas, 100) { r.range(1, 40) * TGAS / 2 } else { FULL_GAS };
                tx(&who, A, if clean { "clean" } else { "replace" }, a, 0, g)
            }
            1 => pick_channel(w, r).unwrap(),
            2 => Step::Drain,
            3 => Step::Code { account: A.into(), code: r.pick(&["state_all", "state_clean", "state_replace", "w-near"]).to_string() },
            _ => Step::Send { from: "eve".into(), to: A.into(), amount: r.amount(NEAR / 50) },
        }
    }
    fn exec(&mut self, w: &mut World, o: &mut Out, ev: &Exec) {
        if ev.receipt.receiver != A {
            return;
        }
        let now = w.accounts.get(A).map_or(Storage::new(), |a| a.storage.clone());
        let what = || format!("{} {} by {}", ev.receipt.method().unwrap_or("-"), args_json(&ev.receipt), ev.receipt.predecessor);
        match ev.receipt.method() {
            None => {
                o.check(now == self.st, T, "changed_by_other", || format!("a plain receipt changed the state: {}", show(&now, &self.st)));
            }
            Some(m) => match self.want(&self.code, m, &args_json(&ev.receipt)) {
                Want::State(st) => {
                    if ev.ok {
                        o.count(&format!("ok_{}", m));
                        o.check(now == st, T, "state", || format!("{} left {}", what(), show(&now, &st)));
                    } else {
                        let env = match ev.fail {
                            Some(Fail::Storage) => {
                                o.count("failed_for_storage");
                                true
                            }
                            Some(Fail::Gas) => {
                                o.count("out_of_gas");
                                // long lists are costly
                                ev.receipt.gas() < FULL_GAS || ev.receipt.args().len() > 6000
                            }
                            _ => false,
                        };
                        o.check(env, T, "refused", || format!("{} failed: {}", what(), ev.err));
                        o.check(now == self.st, T, "partial", || format!("{} failed but left {}", what(), show(&now, &self.st)));
                    }
                }
                Want::Refused => {
                    o.count("refused_calls");
                    o.check(!ev.ok, T, "accepted", || format!("{} on {} was accepted", what(), self.code));
                    o.check(now == self.st, T, "changed_by_refused", || format!("{} left {}", what(), show(&now, &self.st)));
                }
                Want::Unknown => {}
            },
        }
        for k in now.keys() {
            if !self.st.contains_key(k) && self.seen.len() < 400 && !self.seen.contains(k) {
                self.seen.push(k.clone());
            }
        }
        self.st = now;
        if let (true, Some(c)) = (ev.ok, ev.receipt.actions().iter().find_map(|a| if let Action::Deploy(b) = a { Some(b.clone()) } else { None })) {
            if let Some((n, _)) = w.codes.iter().find(|(_, x)| x.bytes == *c) {
                self.code = n.clone();
            }
        }
        self.n += 1;
    }
    fn after(&mut self, w: &mut World, o: &mut Out, _s: &Step) {
        let now = w.accounts.get(A).map(|a| a.storage == self.st);
        o.check(now == Some(true), T, "changed_between", || "the state changed although nothing was executed".into());
    }
    fn close(d: &mut Driver<Self>) {
        d.apply(&Step::Drain);
        d.apply(&Step::Send { from: "bob".into(), to: A.into(), amount: 1000 * NEAR });
        d.apply(&Step::Drain);
        d.apply(&Step::Code { account: A.into(), code: "state_all".into() });
        d.apply(&Step::Drain);
        // everything but one entry goes, one comes
        let keys: Vec<Vec<u8>> = d.w.accounts[A].storage.keys().cloned().collect();
        let keep = keys.len() / 2;
        let names: Vec<Value> = keys.iter().enumerate().filter(|(i, _)| *i != keep).map(|(_, k)| json!(base64::encode(k))).collect();
        for c in names.chunks(40) {
            d.call("eve", A, "clean", json!({ "keys": c }), 0);
        }
        let left: Vec<Vec<u8>> = d.w.accounts[A].storage.keys().cloned().collect();
        d.o.check(left == keys.get(keep).cloned().into_iter().collect::<Vec<_>>(), T, "not_cleaned", || format!("{} of {} entries left", left.len(), keys.len()));
        d.call("eve", A, "replace", json!({ "entries": [["bmV3", "eA=="]] }), 0);
        let v = d.w.accounts[A].storage.get(&b"new"[..]).cloned();
        d.o.check(v == Some(b"x".to_vec()), T, "not_replaced", || format!("{:?}", v));
        // a cleaned account can start again
        let all: Vec<Value> = d.w.accounts[A].storage.keys().map(|k| json!(base64::encode(k))).collect();
        d.call("eve", A, "clean", json!({ "keys": all }), 0);
        let n = d.w.accounts[A].storage.len();
        d.o.check(n == 0, T, "not_empty", || format!("{} entries left", n));
    }
}
