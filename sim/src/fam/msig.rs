//! Multisig contracts (v1: access keys, v2: members): requests, confirmations, membership, keys.
use super::common::*;
use crate::engine::Env;
use crate::sim::*;
use crate::util::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

const M: &str = "msig.near";
const COOL: u64 = 900_000_000_000;
const METHODS: [&str; 4] = ["add_request", "delete_request", "confirm", "add_request_and_confirm"];
const FULLKEY: &str = "full";

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Cfg {
    v: u32,
    keys: u64,
    accounts: u64,
    k: u32,
    low_gas: u64,
    bad: u64,
    outsider: u64,
    proxy: u64,
    deliver: u64,
    del: u64,
    limit: u64,
    admin: u64,
    fail: u64,
    epoch: u64,
    late: u64,
    #[serde(default)]
    push: u64,
    /// the first member key has full access to the account
    #[serde(default)]
    full: bool,
}
#[derive(Clone, Debug)]
struct Req {
    by: String,
    at: u64,
    req: Value,
    confs: BTreeSet<String>,
}
#[derive(Clone, Debug, Default)]
struct Model {
    members: BTreeSet<String>,
    k: u32,
    limit: u32,
    nonce: u64,
    reqs: BTreeMap<u64, Req>,
}
/// Why a call must be refused.
#[derive(Clone, Copy, Debug, PartialEq)]
enum No {
    Stranger,
    Limit,
    Early,
    Twice,
    Gone,
    Reinit,
    /// executing the request is not permitted
    Consensus,
    Args,
}
#[derive(Clone, Debug, Default)]
struct Eff {
    sent: Option<(String, Vec<String>)>,
    ret: Option<Value>,
    executed: bool,
    /// may fail in the environment (balance, gas, malformed action)
    maybe: bool,
    admin: bool,
}
pub struct Msig {
    cfg: Cfg,
    m: Model,
    /// access keys the multisig account should have
    keys: BTreeMap<Vec<u8>, String>,
    univ: Vec<String>,
    plan: VecDeque<Step>,
    started: bool,
    own: BTreeSet<u64>,
    /// open requests at the last comparison
    open: BTreeSet<u64>,
}

pub fn perm_text(p: &Perm) -> String {
    match p {
        Perm::Full => FULLKEY.into(),
        Perm::Call { allowance, receiver, methods } => {
            let mut m: Vec<&str> = methods.iter().map(|x| &x[..]).collect();
            m.sort();
            m.dedup();
            let mut four = METHODS.to_vec();
            four.sort();
            if m == four {
                format!("call({},{:?},own request methods)", receiver, allowance)
            } else {
                format!("call({},{:?},{:?})", receiver, allowance, m)
            }
        }
    }
}
fn member_perm() -> String {
    format!("call({},None,own request methods)", M)
}
fn show(a: &Action) -> String {
    match a {
        Action::CreateAccount => "create".into(),
        Action::Deploy(c) => format!("deploy({})", hex::encode(sha256(c))),
        Action::Call { method, args, gas, deposit } => format!("call({},{},{},{})", method, base64::encode(args), gas, deposit),
        Action::Transfer(d) => format!("transfer({})", d),
        Action::AddKey { pk, perm } => format!("add_key({},{})", pk_text(pk), perm_text(perm)),
        Action::DeleteKey { pk } => format!("delete_key({})", pk_text(pk)),
        a => a.name(),
    }
}
fn key_member(v: u32, name: &str) -> String {
    if v == 1 {
        pk_str(name)
    } else {
        json!({ "public_key": pk_str(name) }).to_string()
    }
}
fn acc_member(name: &str) -> String {
    json!({ "account_id": name }).to_string()
}
impl Model {
    fn count(&self, who: &str) -> u64 {
        self.reqs.values().filter(|r| r.by == who).count() as u64
    }
    fn add(&mut self, who: &str, req: &Value, time: u64) -> Result<u64, No> {
        if self.count(who) + 1 > self.limit as u64 {
            return Err(No::Limit);
        }
        let id = self.nonce;
        self.nonce += 1;
        self.reqs.insert(id, Req { by: who.into(), at: time, req: req.clone(), confs: BTreeSet::new() });
        Ok(id)
    }
    fn confirm(&mut self, v: u32, who: &str, id: u64, bal: u128, gas: u64) -> Result<Eff, No> {
        let r = self.reqs.get_mut(&id).ok_or(No::Gone)?;
        if r.confs.contains(who) {
            return Err(No::Twice);
        }
        r.confs.insert(who.into());
        if (r.confs.len() as u32) < self.k {
            return Ok(Eff::default());
        }
        let r = self.reqs.remove(&id).unwrap();
        self.execute(v, &r.req, bal, gas)
    }
    fn execute(&mut self, v: u32, req: &Value, bal: u128, gas: u64) -> Result<Eff, No> {
        let to = s(&req["receiver_id"]);
        let acts = req["actions"].as_array().cloned().unwrap_or_default();
        let own = to == M;
        let mut e = Eff { executed: true, ..Default::default() };
        let mut out = vec![];
        let (mut spend, mut g) = (0u128, 0u64);
        for a in &acts {
            let t = s(&a["type"]);
            let me = |x: &str| if own { Ok(()) } else { Err((No::Consensus, x.len())) };
            match &t[..] {
                "Transfer" => {
                    let d = u(&a["amount"]).unwrap();
                    spend += d;
                    out.push(show(&Action::Transfer(d)));
                }
                "CreateAccount" => out.push("create".into()),
                "DeployContract" => out.push(show(&Action::Deploy(std::sync::Arc::new(base64::decode(s(&a["code"])).unwrap())))),
                "FunctionCall" => {
                    let d = u(&a["deposit"]).unwrap();
                    let gg = u(&a["gas"]).unwrap() as u64;
                    spend += d;
                    g += gg;
                    let m = s(&a["method_name"]);
                    e.maybe |= m.is_empty() || gg == 0;
                    out.push(show(&Action::Call { method: m, args: base64::decode(s(&a["args"])).unwrap(), gas: gg, deposit: d }));
                }
                "AddMember" => {
                    me(&t).map_err(|x| x.0)?;
                    e.admin = true;
                    let mem = a["member"].to_string();
                    self.members.insert(mem);
                    if let Some(pk) = a["member"]["public_key"].as_str() {
                        out.push(format!("add_key({},{})", pk, member_perm()));
                    }
                }
                "DeleteMember" => {
                    me(&t).map_err(|x| x.0)?;
                    e.admin = true;
                    if (self.members.len() as u32) < self.k.saturating_add(1) || self.members.is_empty() {
                        return Err(No::Consensus);
                    }
                    let mem = a["member"].to_string();
                    self.reqs.retain(|_, r| r.by != mem);
                    self.members.remove(&mem);
                    if let Some(pk) = a["member"]["public_key"].as_str() {
                        out.push(format!("delete_key({})", pk));
                    }
                }
                "AddKey" => {
                    me(&t).map_err(|x| x.0)?;
                    e.admin = true;
                    let p = &a["permission"];
                    let perm = if p.is_null() {
                        Perm::Full
                    } else {
                        let methods: Vec<String> = p["method_names"].as_array().unwrap().iter().map(s).collect();
                        e.maybe |= methods.iter().any(|m| m.is_empty());
                        Perm::Call { allowance: u(&p["allowance"]).filter(|x| *x > 0), receiver: s(&p["receiver_id"]), methods }
                    };
                    out.push(format!("add_key({},{})", s(&a["public_key"]), perm_text(&perm)));
                }
                "DeleteKey" => {
                    me(&t).map_err(|x| x.0)?;
                    e.admin = true;
                    let mem = s(&a["public_key"]);
                    self.reqs.retain(|_, r| r.by != mem);
                    out.push(format!("delete_key({})", mem));
                }
                "SetNumConfirmations" | "SetActiveRequestsLimit" => {
                    me(&t).map_err(|x| x.0)?;
                    e.admin = true;
                    if acts.len() != 1 {
                        return Err(No::Consensus);
                    }
                    if t == "SetNumConfirmations" {
                        self.k = a["num_confirmations"].as_u64().unwrap() as u32;
                    } else {
                        self.limit = a["active_requests_limit"].as_u64().unwrap() as u32;
                    }
                    return Ok(e);
                }
                _ => return Err(No::Args),
            }
        }
        let _ = v;
        e.maybe |= spend > bal || g + 60 * TGAS > gas || !valid_account_id(&to);
        if !out.is_empty() {
            e.sent = Some((to, out));
        }
        Ok(e)
    }
    fn call(&mut self, v: u32, ev: &Exec) -> Result<Eff, No> {
        let m = ev.receipt.method().unwrap_or("");
        let a = args_json(&ev.receipt);
        if m == "new" {
            return Err(No::Reinit);
        }
        if !METHODS.contains(&m) {
            return Err(No::Args);
        }
        let pk = pk_text(ev.receipt.signer_pk());
        let own = ev.receipt.predecessor == M;
        let who = match (v, own) {
            (1, true) => pk,
            (1, false) => return Err(No::Stranger),
            (_, true) => json!({ "public_key": pk }).to_string(),
            _ => acc_member(&ev.receipt.predecessor),
        };
        if v == 2 && !self.members.contains(&who) {
            return Err(No::Stranger);
        }
        let bal = ev.pre.map_or(0, |p| p.0);
        let gas = ev.receipt.gas();
        match m {
            "add_request" => {
                let maybe = !valid_account_id(&s(&a["request"]["receiver_id"]));
                let id = self.add(&who, &a["request"], ev.time)?;
                Ok(Eff { ret: Some(json!(id)), maybe, ..Default::default() })
            }
            "add_request_and_confirm" => {
                let id = self.add(&who, &a["request"], ev.time)?;
                let mut e = self.confirm(v, &who, id, bal, gas)?;
                e.maybe |= !valid_account_id(&s(&a["request"]["receiver_id"]));
                Ok(Eff { ret: Some(json!(id)), ..e })
            }
            "confirm" => self.confirm(v, &who, a["request_id"].as_u64().ok_or(No::Args)?, bal, gas),
            _ => {
                let id = a["request_id"].as_u64().ok_or(No::Args)?;
                let r = self.reqs.get(&id).ok_or(No::Gone)?;
                if ev.time <= r.at + COOL {
                    return Err(No::Early);
                }
                self.reqs.remove(&id);
                Ok(Eff::default())
            }
        }
    }
}
impl Msig {
    /// property tags of this version: execution, requests, administration
    fn t(&self, i: usize) -> &'static [&'static str] {
        match (self.cfg.v, i) {
            (1, 1) => &["C54"],
            (1, 3) => &["C53", "C54"],
            (1, _) => &["C53"],
            (_, 0) => &["C50"],
            (_, 1) => &["C51"],
            (_, 2) => &["C52"],
            _ => &["C50", "C51", "C52"],
        }
    }
    fn any_member(&self, r: &mut Rng) -> Value {
        if r.chance(1, 2) {
            json!({ "public_key": pk_str(&format!("k{}", r.below(self.cfg.keys + 2))) })
        } else {
            json!({ "account_id": format!("a{}.near", r.below(self.cfg.accounts + 2)) })
        }
    }
    fn current_or_any(&self, r: &mut Rng) -> Value {
        if r.chance(3, 4) && !self.m.members.is_empty() {
            let v: Vec<&String> = self.m.members.iter().collect();
            {
                let m: &String = *r.pick(&v);
                serde_json::from_str(m).unwrap()
            }
        } else {
            self.any_member(r)
        }
    }
    fn request(&self, r: &mut Rng, w: &World) -> Value {
        let c = &self.cfg;
        let v2 = c.v == 2;
        let pk = |r: &mut Rng| {
            let n = r.below(c.keys + 2);
            pk_str(&if r.chance(1, 2) { format!("x{}", r.below(2)) } else { format!("k{}", n) })
        };
        let transfer = |r: &mut Rng| json!({"type": "Transfer", "amount": st(r.amount(NEAR))});
        let perm = |r: &mut Rng| {
            let ms: Vec<String> = match r.below(4) {
                0 => vec![],
                1 => vec!["confirm".into()],
                2 => vec!["foo".into(), "bar".into()],
                _ => METHODS.iter().map(|x| x.to_string()).collect(),
            };
            let rc = if r.chance(2, 3) { M } else { "ext.near" };
            let al = if r.chance(1, 3) { st(r.amount(NEAR)) } else { Value::Null };
            json!({"allowance": al, "receiver_id": rc, "method_names": ms})
        };
        let add_key = |r: &mut Rng| {
            let mut a = json!({"type": "AddKey", "public_key": pk(r)});
            if !r.chance(1, 6) {
                a["permission"] = perm(r);
            }
            a
        };
        let admin = |r: &mut Rng| match (v2, r.below(3)) {
            (true, 0) => json!({"type": "AddMember", "member": self.any_member(r)}),
            (true, 1) => json!({"type": "DeleteMember", "member": self.current_or_any(r)}),
            (false, 1) | (false, 0) if r.chance(1, 2) => json!({"type": "DeleteKey", "public_key": pk(r)}),
            _ => add_key(r),
        };
        let set = |r: &mut Rng| {
            if r.chance(1, 2) {
                let n = match r.below(8) {
                    0 => 0,
                    1 => 9,
                    _ => r.range(1, c.keys + c.accounts.min(3)),
                };
                json!({"type": "SetNumConfirmations", "num_confirmations": n})
            } else {
                let n = match r.below(6) {
                    0 => 0,
                    1 => 12,
                    _ => r.range(1, 5),
                };
                json!({"type": "SetActiveRequestsLimit", "active_requests_limit": n})
            }
        };
        let bad = r.chance(c.bad, 100);
        let (to, acts): (String, Vec<Value>) = match r.weighted(&[30, 8, 14, 10, c.admin, c.admin / 2 + c.limit, 8, 3, if bad { 60 } else { 0 }]) {
            0 => (r.pick(&["u0.near", "u1.near", "nobody.near", M]).to_string(), (0..r.range(1, 3)).map(|_| transfer(r)).collect()),
            1 => {
                let mut v = vec![json!({"type": "CreateAccount"}), json!({"type": "Transfer", "amount": st(NEAR)})];
                if r.chance(1, 2) {
                    v.push(json!({"type": "DeployContract", "code": base64::encode(&[0u8, r.below(9) as u8, 3])}));
                }
                (format!("s{}.{}", r.below(3), M), v)
            }
            2 => {
                let v = (0..r.range(1, 2)).map(|_| {
                    json!({"type": "FunctionCall", "method_name": *r.pick(&["hi", "there"]), "args": base64::encode(format!("{{\"n\":{}}}", r.below(99))),
                        "deposit": st(if r.chance(1, 2) { 0 } else { r.amount(NEAR) }), "gas": (r.range(1, 40) * TGAS).to_string()})
                });
                let mut v: Vec<Value> = v.collect();
                if r.chance(1, 6) {
                    v.truncate(1);
                    v[0]["gas"] = json!((r.range(40, 230) * TGAS).to_string());
                }
                ("ext.near".into(), v)
            }
            3 => {
                // the multisig calls itself
                let id = if r.chance(3, 4) { r.below(self.m.nonce + 2) } else { self.m.nonce };
                let (m, a) = match r.below(4) {
                    0 => ("delete_request", json!({ "request_id": id })),
                    1 => ("add_request", json!({"request": {"receiver_id": "u0.near", "actions": [transfer(r)]}})),
                    _ => ("confirm", json!({ "request_id": id })),
                };
                let f = json!({"type": "FunctionCall", "method_name": m, "args": base64::encode(a.to_string()), "deposit": "0", "gas": (100 * TGAS).to_string()});
                (M.into(), vec![f])
            }
            4 => (M.into(), (0..r.range(1, 2)).map(|_| admin(r)).collect()),
            5 => (M.into(), vec![set(r)]),
            6 => (M.into(), vec![admin(r), transfer(r), admin(r)]),
            7 => ("u0.near".into(), vec![]),
            _ => match r.below(6) {
                0 => ("u0.near".into(), if r.chance(1, 2) { vec![admin(r)] } else { vec![transfer(r), admin(r)] }),
                1 => ("u0.near".into(), vec![set(r)]),
                2 => (M.into(), vec![set(r), transfer(r)]),
                3 => (M.into(), vec![transfer(r), set(r)]),
                4 => ("u0.near".into(), vec![json!({"type": "Transfer", "amount": st(w.amount(M).saturating_mul(2))})]),
                _ => (r.pick(&["Bad!", "x"]).to_string(), vec![transfer(r)]),
            },
        };
        json!({"receiver_id": to, "actions": acts})
    }
    fn compare(&mut self, w: &mut World, o: &mut Out, what: &str) {
        let m = self.m.clone();
        let n = w.vj(M, "get_request_nonce", json!({}));
        o.check(n == Some(json!(m.nonce)), self.t(1), "nonce", || format!("nonce {:?}, expected {} after {}", n, m.nonce, what));
        let k = w.vj(M, "get_num_confirmations", json!({}));
        o.check(k == Some(json!(m.k)), self.t(2), "threshold", || format!("threshold {:?}, expected {} after {}", k, m.k, what));
        let ids: Option<BTreeSet<u64>> = w.vj(M, "list_request_ids", json!({})).and_then(|v| Some(v.as_array()?.iter().filter_map(|x| x.as_u64()).collect()));
        let exp: BTreeSet<u64> = m.reqs.keys().cloned().collect();
        o.check(ids.as_ref() == Some(&exp), self.t(3), "open_requests", || format!("open requests {:?}, expected {:?} after {}", ids, exp, what));
        for (id, q) in &m.reqs {
            let a = w.vj(M, "get_request", json!({ "request_id": id }));
            o.check(a.as_ref() == Some(&q.req), self.t(0), "request", || format!("request {} is {:?}, submitted {} after {}", id, a, q.req, what));
            let c = w.vj(M, "get_confirmations", json!({ "request_id": id }));
            let c: Option<BTreeSet<String>> = c.and_then(|v| {
                let f = |x: &Value| {
                    let t = s(x);
                    serde_json::from_str::<Value>(&t).map(|v| v.to_string()).unwrap_or(t)
                };
                Some(v.as_array()?.iter().map(f).collect())
            });
            o.check(c.as_ref() == Some(&q.confs), self.t(0), "confirmations", || {
                format!("request {} confirmed by {:?}, expected {:?} after {}", id, c, q.confs, what)
            });
        }
        let before = std::mem::replace(&mut self.open, m.reqs.keys().cloned().collect());
        for id in 0..m.nonce {
            if !m.reqs.contains_key(&id) && (id + 6 > m.nonce || before.contains(&id)) {
                let a = w.vj(M, "get_request", json!({ "request_id": id }));
                o.check(a.is_none(), self.t(3), "request_stays", || format!("request {} is gone but reads {:?} after {}", id, a, what));
                let a = w.vj(M, "get_confirmations", json!({ "request_id": id }));
                let none = a.as_ref().map_or(true, |v| v.as_array().map_or(true, |v| v.is_empty()));
                o.check(none, self.t(3), "confirmations_stay", || format!("request {} is gone but has confirmations {:?} after {}", id, a, what));
            }
        }
        for x in self.univ.clone() {
            let a = if self.cfg.v == 1 {
                w.vj(M, "get_num_requests_pk", json!({ "public_key": x }))
            } else {
                w.vj(M, "get_num_requests_per_member", json!({"member": serde_json::from_str::<Value>(&x).unwrap()}))
            };
            let e = m.count(&x);
            o.check(a == Some(json!(e)), self.t(1), "request_count", || format!("{} has {:?} open requests, expected {} after {}", x, a, e, what));
        }
        if self.cfg.v == 2 {
            let a: Option<BTreeSet<String>> = w.vj(M, "get_members", json!({})).and_then(|v| Some(v.as_array()?.iter().map(|x| x.to_string()).collect()));
            o.check(a.as_ref() == Some(&m.members), self.t(2), "members", || format!("members {:?}, expected {:?} after {}", a, m.members, what));
        }
    }
    fn keys_ok(&mut self, w: &World, o: &mut Out, what: &str) {
        let have: BTreeMap<Vec<u8>, String> =
            w.accounts.get(M).map_or(BTreeMap::new(), |a| a.keys.iter().map(|(k, p)| (k.clone(), perm_text(p))).collect());
        let exp = &self.keys;
        o.check(have == *exp, self.t(2), "account_keys", || {
            let f = |m: &BTreeMap<Vec<u8>, String>| m.iter().map(|(k, p)| format!("{} {}", pk_text(k), p)).collect::<Vec<_>>();
            format!("access keys {:?}, expected {:?} after {}", f(&have), f(exp), what)
        });
    }
    /// Everyone who can act on the multisig now: (from, key).
    fn actors(&self, w: &World) -> Vec<(String, Option<String>, String)> {
        let mut v = vec![];
        for i in 0..self.cfg.keys + 2 {
            for n in &[format!("k{}", i), format!("x{}", i)] {
                let can = w.accounts.get(M).and_then(|a| a.keys.get(&pk_of(n))).map_or(false, |p| match p {
                    Perm::Full => true,
                    Perm::Call { receiver, methods, .. } => receiver == M && (methods.is_empty() || METHODS.iter().all(|x| methods.iter().any(|m| m == x))),
                });
                let mem = key_member(self.cfg.v, n);
                if can && (self.cfg.v == 1 || self.m.members.contains(&mem)) {
                    v.push((M.to_string(), Some(n.clone()), mem));
                }
            }
        }
        if self.cfg.v == 2 {
            for i in 0..self.cfg.accounts + 2 {
                let n = format!("a{}.near", i);
                if w.exists(&n) && self.m.members.contains(&acc_member(&n)) {
                    v.push((n.clone(), None, acc_member(&n)));
                }
            }
        }
        v
    }
}
fn mtx(from: &str, key: Option<String>, method: &str, args: Value, gas: u64) -> Step {
    Step::Tx { from: from.into(), key, to: M.into(), method: method.into(), args, deposit: 0, gas }
}

impl Family for Msig {
    fn config(r: &mut Rng, prop: &str) -> Value {
        let v = if prop == "C53" || prop == "C54" { 1 } else { 2 };
        let keys = r.range(if v == 1 { 2 } else { 0 }, 4);
        let accounts = if v == 1 { 0 } else { r.range(if keys == 0 { 1 } else { 0 }, 4) };
        let f = r.chance(3, 4);
        let mut d = |m: u64| if f && r.chance(1, 2) { r.range(1, m) } else { 0 };
        let (low_gas, fail) = (d(15), d(10));
        let bad = *r.pick(&[0, 8, 40]);
        let n = keys + accounts;
        let k = if r.chance(1, 3) { 2.min(n) } else { r.range(1, n) };
        serde_json::to_value(Cfg {
            v,
            keys,
            accounts,
            k: k as u32,
            low_gas,
            bad,
            outsider: r.below(12),
            proxy: r.below(10),
            deliver: *r.pick(&[0u64, 60, 120]),
            del: r.below(15),
            limit: r.below(8),
            admin: r.below(30),
            fail,
            epoch: r.below(4),
            late: r.below(8),
            push: *r.pick(&[0, 10, 40]),
            full: r.chance(1, 3),
        })
        .unwrap()
    }
    fn setup(env: &Env, prop: &str, cfg: &Value) -> Driver<Self> {
        let cfg: Cfg = serde_json::from_value(cfg.clone()).unwrap();
        let mut w = env.world();
        w.contract(M, 100_000 * NEAR, &env.code(if cfg.v == 1 { "multisig" } else { "multisig2" }));
        let names: Vec<String> = (0..cfg.accounts + 2).map(|i| format!("a{}.near", i)).collect();
        for n in names.iter().map(|x| &x[..]).chain(vec!["u0.near", "u1.near", "eve.near", "ext.near", "proxy"]) {
            w.create(n, 100_000 * NEAR);
        }
        // other accounts that happen to hold the members' keys
        for a in &["eve.near", "a0.near", "u1.near"] {
            for i in 0..cfg.keys + 2 {
                w.accounts.get_mut(*a).unwrap().keys.insert(pk_of(&format!("k{}", i)), Perm::Full);
            }
        }
        w.stubs.insert(("ext.near".into(), "*".into()), Reply::default());
        let mut members = vec![];
        let mut univ = vec![];
        for i in 0..cfg.keys + 2 {
            let m = key_member(cfg.v, &format!("k{}", i));
            if i < cfg.keys {
                members.push(m.clone());
            }
            univ.push(m);
        }
        if cfg.v == 2 {
            for i in 0..cfg.accounts + 2 {
                // the last account of the initial members is a contract
                let n = if i + 1 == cfg.accounts && cfg.proxy > 0 { "proxy".to_string() } else { format!("a{}.near", i) };
                let m = acc_member(&n);
                if i < cfg.accounts {
                    members.push(m.clone());
                }
                univ.push(m);
            }
            univ.push(acc_member("eve.near"));
        }
        for i in 0..2 {
            univ.push(key_member(cfg.v, &format!("x{}", i)));
        }
        let mut keys = BTreeMap::new();
        for i in 0..cfg.keys {
            let n = format!("k{}", i);
            keys.insert(pk_of(&n), member_perm());
            if cfg.v == 1 {
                let p = Perm::Call { allowance: None, receiver: M.into(), methods: METHODS.iter().map(|x| x.to_string()).collect() };
                w.accounts.get_mut(M).unwrap().keys.insert(pk_of(&n), p);
            }
        }
        let m = Model { members: members.iter().cloned().collect(), k: cfg.k, limit: 12, nonce: 0, reqs: BTreeMap::new() };
        let init = if cfg.v == 1 {
            json!({ "num_confirmations": cfg.k })
        } else {
            let ms: Vec<Value> = members.iter().map(|x| serde_json::from_str(x).unwrap()).collect();
            json!({"members": ms, "num_confirmations": cfg.k})
        };
        let f = Msig { cfg: cfg.clone(), m, keys, univ, plan: VecDeque::new(), started: false, own: BTreeSet::new(), open: BTreeSet::new() };
        let mut d = Driver::new(w, f, prop);
        if cfg.v == 2 {
            for twice in &[false, true] {
                let mut bad = init.clone();
                bad["num_confirmations"] = json!(members.len() + 1);
                if *twice {
                    // as many entries, but not as many members
                    let ms = bad["members"].as_array_mut().unwrap();
                    let m = ms[cfg.k as usize % ms.len()].clone();
                    ms.push(m);
                }
                d.apply(&tx("eve.near", M, "new", bad, 0, FULL_GAS));
                d.apply(&Step::Drain);
                let made = d.w.view(M, "get_num_confirmations", b"{}").is_ok();
                let t = d.f.t(2);
                d.o.check(!made, t, "init_threshold", || "initialised with a threshold above the number of members".into());
                if made {
                    return d;
                }
            }
        }
        d.apply(&tx("eve.near", M, "new", init, 0, FULL_GAS));
        d.apply(&Step::Drain);
        d.f.started = true;
        let Driver { w, f, o, .. } = &mut d;
        if cfg.full && cfg.keys > 0 {
            w.accounts.get_mut(M).unwrap().keys.insert(pk_of("k0"), Perm::Full);
            f.keys.insert(pk_of("k0"), perm_text(&Perm::Full));
        }
        f.compare(w, o, "initialisation");
        f.keys_ok(w, o, "initialisation");
        d
    }
    fn relay(&self) -> Option<&'static str> {
        Some("ext.near")
    }

    fn watched(&self) -> Vec<String> {
        vec![M.into()]
    }
    fn next(&mut self, w: &mut World, r: &mut Rng, _o: &mut Out) -> Step {
        if let Some(s) = self.plan.pop_front() {
            return s;
        }
        let c = self.cfg.clone();
        let busy = !w.queues.is_empty();
        let mut acts = self.actors(w);
        for a in acts.iter_mut() {
            // an account that happens to hold a member's key signs with it
            if a.0 == "a0.near" && c.keys > 0 && r.chance(1, 3) {
                a.1 = Some(format!("k{}", r.below(c.keys)));
            }
        }
        let g = if r.chance(c.low_gas, 100) { r.range(1, 200) * TGAS } else { gas(r, c.low_gas) };
        let open: Vec<u64> = self.m.reqs.keys().cloned().collect();
        let id = |r: &mut Rng| if open.is_empty() || r.chance(1, 12) { r.below(self.m.nonce + 2) } else { *r.pick(&open) };
        let wts = [30, 45, c.del, c.outsider, if busy { c.deliver } else { 0 }, if busy { 40 } else { 0 }, c.proxy + 6 * c.full as u64, c.fail, 2, c.epoch, c.late, c.push];
        let kind = r.weighted(&wts);
        if acts.is_empty() && (kind < 3 || kind >= 10) {
            return Step::Drain;
        }
        match kind {
            0 => {
                let a = r.pick(&acts).clone();
                let m = if r.chance(1, 2) { "add_request" } else { "add_request_and_confirm" };
                mtx(&a.0, a.1, m, json!({"request": self.request(r, w)}), g)
            }
            1 => {
                let i = id(r);
                // mostly someone who has not confirmed yet
                let fresh: Vec<_> = acts.iter().filter(|a| self.m.reqs.get(&i).map_or(true, |q| !q.confs.contains(&a.2))).cloned().collect();
                let a = if fresh.is_empty() || r.chance(1, 10) { r.pick(&acts).clone() } else { r.pick(&fresh).clone() };
                mtx(&a.0, a.1, "confirm", json!({ "request_id": i }), g)
            }
            2 => {
                let i = id(r);
                let a = r.pick(&acts).clone();
                if let (Some(q), true) = (self.m.reqs.get(&i), r.chance(3, 4)) {
                    // around the cooldown
                    let off = *r.pick(&[-1i64, 0, 1, 60_000_000_000]);
                    let at = (q.at + COOL) as i64 + off - 1_000_000_000;
                    if at > w.time as i64 && !busy {
                        self.plan.push_back(Step::Time { ns: (at - w.time as i64) as u64 });
                    }
                }
                self.plan.push_back(mtx(&a.0, a.1, "delete_request", json!({ "request_id": i }), g));
                self.plan.push_back(Step::Drain);
                self.plan.pop_front().unwrap()
            }
            3 => {
                let (from, key) = match r.below(4) {
                    0 => ("eve.near".to_string(), Some(format!("k{}", r.below(c.keys + 1)))),
                    1 => (format!("a{}.near", r.below(c.accounts + 2)), None),
                    2 => (M.to_string(), Some(format!("{}{}", r.pick(&["x", "k"]), r.below(c.keys + 2)))),
                    _ => ("u1.near".to_string(), Some(format!("k{}", r.below(c.keys + 1)))),
                };
                let a = json!({ "request_id": id(r) });
                match r.below(7) {
                    0 | 1 => mtx(&from, key, "confirm", a, FULL_GAS),
                    2 => mtx(&from, key, "delete_request", a, FULL_GAS),
                    3 => mtx(&from, key, "add_request", json!({"request": self.request(r, w)}), FULL_GAS),
                    4 => mtx(&from, key, "add_request_and_confirm", json!({"request": self.request(r, w)}), FULL_GAS),
                    5 => mtx(&from, key, "new", if c.v == 1 { json!({"num_confirmations": 1}) } else { json!({"members": [{"account_id": "eve.near"}], "num_confirmations": 1}) }, FULL_GAS),
                    _ => mtx(&from, key, *r.pick(&["execute_request", "remove_request", "add_member", "delete_member", "current_member"]), a, FULL_GAS),
                }
            }
            4 => pick_channel(w, r).unwrap(),
            5 => Step::Drain,
            6 => {
                if r.chance(1, 2) {
                    let mut calls = vec![];
                    for _ in 0..r.range(1, 3) {
                        let (m, a) = match r.below(4) {
                            0 => ("add_request_and_confirm", json!({"request": self.request(r, w)})),
                            _ => ("confirm", json!({ "request_id": id(r) })),
                        };
                        calls.push((M.to_string(), m.to_string(), a, "0".to_string(), 80 * TGAS));
                    }
                    Step::Stub { to: "proxy".into(), method: "go".into(), reply: Reply { calls, ..Default::default() } }
                } else {
                    let k = if c.keys > 0 && r.chance(1, 2) { Some(format!("k{}", r.below(c.keys))) } else { None };
                    // the account's own transaction, by way of another contract
                    let from = if c.full && k.is_some() && r.chance(2, 3) { M } else { "u1.near" };
                    let k = if from == M { Some("k0".to_string()) } else { k };
                    Step::Tx { from: from.into(), key: k, to: "proxy".into(), method: "go".into(), args: json!({}), deposit: 0, gas: FULL_GAS }
                }
            }
            7 => {
                if r.chance(1, 2) {
                    Step::Fail { to: "ext.near".into(), method: r.pick(&["hi", "there"]).to_string(), n: 1 }
                } else {
                    let u = r.pick(&["u0.near", "u1.near"]).to_string();
                    if w.exists(&u) {
                        Step::Delete { account: u, beneficiary: "eve.near".into() }
                    } else {
                        Step::Create { account: u, amount: 1000 * NEAR }
                    }
                }
            }
            8 => Step::Time { ns: r.amount(2 * COOL as u128) as u64 },
            9 => epoch_step(vec![], vec![]),
            11 => {
                // everyone confirms, one after another: an open request, or a new one
                let mut fresh = acts.clone();
                let i = if open.is_empty() || r.chance(1, 3) {
                    let a = fresh.remove(r.below(fresh.len() as u64) as usize);
                    self.plan.push_back(mtx(&a.0, a.1, "add_request_and_confirm", json!({"request": self.request(r, w)}), FULL_GAS));
                    self.m.nonce
                } else {
                    *r.pick(&open)
                };
                if let Some(q) = self.m.reqs.get(&i) {
                    fresh.retain(|a| !q.confs.contains(&a.2));
                }
                while !fresh.is_empty() {
                    let a = fresh.remove(r.below(fresh.len() as u64) as usize);
                    if r.chance(1, 2) {
                        self.plan.push_back(Step::Drain);
                    }
                    self.plan.push_back(mtx(&a.0, a.1, "confirm", json!({ "request_id": i }), FULL_GAS));
                }
                self.plan.push_back(Step::Drain);
                self.plan.pop_front().unwrap()
            }
            _ => {
                // many at once from one member: the limit
                let a = r.pick(&acts).clone();
                for _ in 0..r.range(2, 14) {
                    let q = json!({"receiver_id": "u0.near", "actions": [{"type": "Transfer", "amount": "1"}]});
                    self.plan.push_back(mtx(&a.0, a.1.clone(), "add_request", json!({ "request": q }), FULL_GAS));
                }
                self.plan.pop_front().unwrap()
            }
        }
    }
    fn exec(&mut self, w: &mut World, o: &mut Out, ev: &Exec) {
        if ev.receipt.receiver != M || ev.receipt.is_refund() {
            return;
        }
        let what = format!("{:?} by {} ({})", ev.receipt.method().map(|m| format!("{} {}", m, args_json(&ev.receipt))), ev.receipt.predecessor, pk_text(ev.receipt.signer_pk()));
        if !self.started {
            return;
        }
        // key actions the multisig ordered for itself
        if ev.receipt.predecessor == M && self.own.remove(&ev.receipt.id) && ev.ok {
            for a in ev.receipt.actions() {
                match a {
                    Action::AddKey { pk, perm } => {
                        self.keys.insert(pk.clone(), perm_text(perm));
                    }
                    Action::DeleteKey { pk } => {
                        self.keys.remove(pk);
                    }
                    _ => {}
                }
            }
        }
        if let Some(m) = ev.receipt.method() {
            let before = self.m.clone();
            let v = self.m.call(self.cfg.v, ev);
            if v.is_err() || !ev.ok {
                self.m = before.clone();
            }
            match (&v, ev.ok) {
                (Err(n), true) => {
                    let t = match n {
                        No::Stranger if self.cfg.v == 1 => self.t(0),
                        No::Stranger => &["C50", "C51"],
                        No::Limit | No::Early => self.t(1),
                        No::Twice | No::Gone => self.t(0),
                        No::Reinit | No::Consensus => self.t(2),
                        No::Args => self.t(3),
                    };
                    o.fail(t, &format!("accepted_{:?}", n), format!("{} accepted ({:?})", what, n));
                }
                (Ok(e), false) => {
                    let t = if e.admin { [self.t(0), self.t(2)].concat() } else if e.executed { self.t(0).to_vec() } else { self.t(3).to_vec() };
                    o.check(env_failure(ev) || e.maybe, &t, &format!("refused_{}", m), || format!("{} failed: {}", what, ev.err));
                }
                (Err(n), false) => o.count(&format!("refused_{:?}", n)),
                (Ok(e), true) => {
                    o.count(&format!("ok_{}", m));
                    if e.executed {
                        o.count(if e.admin { "executed_admin" } else { "executed" });
                    }
                    let sent: Vec<(String, Vec<String>)> = ev
                        .sent()
                        .filter(|r| !r.actions().is_empty())
                        .map(|r| (r.receiver.clone(), r.actions().iter().map(show).collect()))
                        .collect();
                    let exp: Vec<_> = e.sent.iter().cloned().collect();
                    let t = if e.admin { [self.t(0), self.t(2)].concat() } else { self.t(0).to_vec() };
                    o.check(sent == exp, &t, "actions", || format!("{} issued {:?}, expected {:?}", what, sent, exp));
                    for r in ev.sent().filter(|r| r.receiver == M) {
                        self.own.insert(r.id);
                    }
                    if let Some(x) = &e.ret {
                        let r = ev.ret_json();
                        o.check(r.as_ref() == Some(x), self.t(1), "request_number", || format!("{} returned {:?}, expected {}", what, r, x));
                    }
                }
            }
            self.compare(w, o, &what);
        }
        self.keys_ok(w, o, &what);
    }
    fn after(&mut self, _w: &mut World, _o: &mut Out, _s: &Step) {}
    fn close(d: &mut Driver<Self>) {
        d.apply(&Step::Drain);
        if !d.f.started {
            return;
        }
        d.apply(&Step::Time { ns: COOL + 1 });
        let acts = d.f.actors(&d.w);
        if acts.is_empty() {
            return;
        }
        // Every member can clear old requests ...
        for (i, id) in d.f.m.reqs.keys().cloned().collect::<Vec<_>>().into_iter().enumerate() {
            let a = &acts[i % acts.len()];
            d.apply(&mtx(&a.0, a.1.clone(), "delete_request", json!({ "request_id": id }), FULL_GAS));
            d.apply(&Step::Drain);
            let t = d.f.t(1);
            let gone = !d.f.m.reqs.contains_key(&id);
            d.o.check(gone, t, "undeletable", || format!("{} cannot delete request {} after the cooldown", a.2, id));
        }
        // ... and enough members can make the account act.
        if d.f.m.limit == 0 || (acts.len() as u32) < d.f.m.k {
            return;
        }
        let q = json!({"receiver_id": "eve.near", "actions": [{"type": "Transfer", "amount": "12345"}]});
        let id = d.f.m.nonce;
        let before = d.w.amount("eve.near");
        let k = d.f.m.k.max(1) as usize;
        for (i, a) in acts.iter().take(k).enumerate() {
            if i == 0 {
                d.apply(&mtx(&a.0, a.1.clone(), "add_request_and_confirm", json!({ "request": q }), FULL_GAS));
            } else {
                d.apply(&mtx(&a.0, a.1.clone(), "confirm", json!({ "request_id": id }), FULL_GAS));
            }
            d.apply(&Step::Drain);
        }
        let got = d.w.amount("eve.near").wrapping_sub(before);
        let t = d.f.t(0);
        let th = d.f.m.k;
        d.o.check(got == 12345, t, "not_executed", || format!("{} members confirmed (threshold {}) and the transfer did not happen", k, th));
    }
}
