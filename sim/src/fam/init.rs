//! Initialisation of every contract: once, only with valid arguments, and to what they say.
use super::common::*;
use super::sched::{Sched, Vest, Vs};
use crate::engine::Env;
use crate::sim::*;
use crate::util::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;

const T: &[&str] = &["C71"];
const KINDS: &[&str] = &["voting", "whitelist", "staking-pool", "staking-pool-factory", "lockup-factory", "multisig", "multisig2", "lockup", "w-near"];
const USERS: &[&str] = &["alice", "bob", "eve"];

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Cfg {
    kind: String,
    app: String,
    low_gas: u64,
    bad: u64,
    other: u64,
    deploy: u64,
    delete: u64,
    deliver: u64,
    poor: bool,
}
pub struct Init {
    cfg: Cfg,
    init: bool,
    st: Storage,
}
#[derive(PartialEq, Debug)]
enum Fit {
    Yes,
    No,
    /// Either is fine.
    Maybe,
}
fn name_ok(v: &Value) -> Option<bool> {
    v.as_str().map(valid_account_id)
}
fn both(v: Vec<Option<bool>>) -> Fit {
    if v.iter().all(|x| *x == Some(true)) {
        Fit::Yes
    } else {
        Fit::No
    }
}
fn key_ok(v: &Value) -> Option<bool> {
    let k = v.as_str()?;
    Some(pk_parse(k).is_some())
}
fn u64_ok(v: &Value) -> Option<bool> {
    v.as_str().map(|s| s.parse::<u64>().is_ok() && !s.starts_with('+'))
}
fn opt(v: &Value, f: fn(&Value) -> Option<bool>) -> Option<bool> {
    if v.is_null() {
        Some(true)
    } else {
        f(v)
    }
}
fn members(a: &Value) -> BTreeSet<String> {
    a["members"].as_array().map_or(BTreeSet::new(), |v| v.iter().map(|m| m.to_string()).collect())
}
fn num32(v: &Value) -> Option<u32> {
    v.as_u64().filter(|x| *x <= u32::MAX as u64).map(|x| x as u32)
}

impl Init {
    fn fit(&self, a: &Value) -> Fit {
        match &*self.cfg.kind {
            "voting" | "w-near" => Fit::Yes,
            "whitelist" => both(vec![name_ok(&a["foundation_account_id"])]),
            "staking-pool-factory" => both(vec![name_ok(&a["staking_pool_whitelist_account_id"])]),
            "lockup-factory" => both(vec![
                name_ok(&a["whitelist_account_id"]),
                name_ok(&a["foundation_account_id"]),
                // `<40 digits>.<this>` has to be a valid name
                Some(self.cfg.app.len() <= 23),
            ]),
            "staking-pool" => {
                let f = |k: &str| num32(&a["reward_fee_fraction"][k]);
                let (n, d) = (f("numerator"), f("denominator"));
                both(vec![
                    name_ok(&a["owner_id"]),
                    key_ok(&a["stake_public_key"]),
                    n.and_then(|n| Some(n <= d? && d? > 0)),
                ])
            }
            "multisig" => both(vec![num32(&a["num_confirmations"]).map(|_| true)]),
            "multisig2" => {
                let ms = match a["members"].as_array() {
                    Some(m) => m.clone(),
                    None => return Fit::No,
                };
                let k = match num32(&a["num_confirmations"]) {
                    Some(k) => k as usize,
                    None => return Fit::No,
                };
                let set = members(a);
                if k > ms.len() || !ms.iter().all(|m| key_ok(&m["public_key"]) == Some(true) || m["account_id"].is_string()) {
                    return Fit::No;
                }
                if k > set.len() {
                    return Fit::No;
                }
                if set.len() < ms.len() || ms.iter().any(|m| name_ok(&m["account_id"]) == Some(false)) {
                    return Fit::Maybe;
                }
                Fit::Yes
            }
            "lockup" => {
                let tr = &a["transfers_information"];
                let tr = match (tr.get("TransfersEnabled"), tr.get("TransfersDisabled")) {
                    (Some(x), None) => u64_ok(&x["transfers_timestamp"]),
                    (None, Some(x)) => name_ok(&x["transfer_poll_account_id"]),
                    _ => None,
                };
                let fo = &a["foundation_account_id"];
                let v = &a["vesting_schedule"];
                let vest = if v.is_null() {
                    Some(fo.is_null())
                } else {
                    let v = match (v.get("VestingHash"), v.get("VestingSchedule")) {
                        (Some(h), None) => h.as_str().map(|h| base64::decode(h).is_ok()),
                        (None, Some(p)) => Vs::of(p).map(|x| x.valid()),
                        _ => None,
                    };
                    v.map(|v| v && name_ok(fo) == Some(true))
                };
                both(vec![
                    name_ok(&a["owner_account_id"]),
                    name_ok(&a["staking_pool_whitelist_account_id"]),
                    u64_ok(&a["lockup_duration"]),
                    opt(&a["lockup_timestamp"], u64_ok),
                    opt(&a["release_duration"], u64_ok),
                    tr,
                    vest,
                ])
            }
            _ => Fit::Maybe,
        }
    }
    fn name(&self, r: &mut Rng) -> String {
        match r.below(6) {
            0 => "aa".into(),
            1 => "x".repeat(64),
            2 => "a-b_c.d0".into(),
            3 => self.cfg.app.clone(),
            _ => r.pick(USERS).to_string(),
        }
    }
    fn bad_name(r: &mut Rng) -> Value {
        let l = "x".repeat(65);
        json!(*r.pick(&["", "a", "Alice", "a..b", ".a", "a.", "-ab", "ab_", "a-_b", "a b", "a\u{e9}b", "alice.NEAR", "a/b", &l]))
    }
    fn args(&self, r: &mut Rng) -> Value {
        let ts = |r: &mut Rng| match r.below(5) {
            0 => json!("0"),
            1 => json!(u64::MAX.to_string()),
            _ => json!((r.below(4000) * 86_400_000_000_000).to_string()),
        };
        let key = |r: &mut Rng| json!(pk_str(&format!("v{}", r.below(4))));
        let member = |r: &mut Rng| json!(pk_str(&format!("k{}", r.below(6))));
        let mut a = match &*self.cfg.kind {
            "voting" | "w-near" => json!({}),
            "whitelist" => json!({ "foundation_account_id": self.name(r) }),
            "staking-pool-factory" => json!({ "staking_pool_whitelist_account_id": self.name(r) }),
            "lockup-factory" => json!({"whitelist_account_id": self.name(r), "foundation_account_id": self.name(r)}),
            "staking-pool" => {
                let d = *r.pick(&[1u32, 2, 10, 100, 10_000, u32::MAX]);
                let n = *r.pick(&[0, 1, d / 2, d - 1, d]);
                json!({"owner_id": self.name(r), "stake_public_key": key(r), "reward_fee_fraction": {"numerator": n, "denominator": d}})
            }
            "multisig" => json!({ "num_confirmations": *r.pick(&[1u32, 2, 3, 12, u32::MAX]) }),
            "multisig2" => {
                let mut s = BTreeSet::new();
                for _ in 0..r.range(1, 6) {
                    s.insert(if r.chance(1, 2) { json!({ "public_key": member(r) }).to_string() } else { json!({ "account_id": self.name(r) }).to_string() });
                }
                let ms: Vec<Value> = s.iter().map(|m| serde_json::from_str(m).unwrap()).collect();
                let k = r.range(1, ms.len() as u64);
                json!({"members": ms, "num_confirmations": k})
            }
            _ => {
                let mut a = json!({
                    "owner_account_id": self.name(r),
                    "lockup_duration": ts(r),
                    "staking_pool_whitelist_account_id": self.name(r),
                    "transfers_information": if r.chance(1, 2) {
                        json!({ "TransfersEnabled": { "transfers_timestamp": ts(r) } })
                    } else {
                        json!({ "TransfersDisabled": { "transfer_poll_account_id": self.name(r) } })
                    }
                });
                for k in &["lockup_timestamp", "release_duration"] {
                    match r.below(3) {
                        0 => a[*k] = Value::Null,
                        1 => a[*k] = ts(r),
                        _ => {}
                    }
                }
                if r.chance(1, 2) {
                    let day = 86_400_000_000_000;
                    let s = r.below(2000) * day;
                    let c = s + r.below(3) * r.below(400) * day;
                    let vs = Vs { start: s, cliff: c, end: c + r.below(2) * r.below(1000) * day + (c == s) as u64 };
                    a["vesting_schedule"] =
                        if r.chance(1, 2) { json!({ "VestingSchedule": vs.json() }) } else { json!({ "VestingHash": base64::encode(&sha256(b"x")) }) };
                    a["foundation_account_id"] = json!(self.name(r));
                }
                a
            }
        };
        if r.chance(self.cfg.bad, 100) {
            let keys: Vec<String> = a.as_object().unwrap().keys().cloned().collect();
            if keys.is_empty() {
                return a;
            }
            let k = r.pick(&keys).clone();
            a[&k] = match &*k {
                _ if r.chance(1, 8) => r.pick(&[Value::Null, json!({}), json!("x y"), json!(-1), json!([])]).clone(),
                "reward_fee_fraction" => {
                    let d = *r.pick(&[0u64, 1, 100, u32::MAX as u64 - 1, 1 << 32]);
                    json!({"numerator": if r.chance(1, 2) { d + 1 } else { d }, "denominator": if r.chance(1, 4) { 0 } else { d }})
                }
                "stake_public_key" => json!(*r.pick(&["ed25519:abc", "", "ed25519:", "0"])),
                "num_confirmations" => {
                    let n = members(&a).len() as u64;
                    if self.cfg.kind == "multisig" {
                        json!(*r.pick(&[1u64 << 32, (1 << 32) + 2, u64::MAX]))
                    } else {
                        json!(*r.pick(&[n + 1, n + 256, n + (1 << 32), u64::MAX]))
                    }
                }
                "members" => {
                    let mut ms = a["members"].as_array().unwrap().clone();
                    match r.below(4) {
                        0 => ms.push(json!({ "public_key": "ed25519:abc" })),
                        1 => ms.clear(),
                        2 => ms.push(json!({ "account_id": Init::bad_name(r) })),
                        _ => {
                            let m = r.pick(&ms).clone();
                            ms.push(m);
                            if r.chance(1, 2) {
                                a["num_confirmations"] = json!(ms.len());
                            }
                        }
                    }
                    json!(ms)
                }
                "transfers_information" => match r.below(3) {
                    0 => json!({ "TransfersDisabled": { "transfer_poll_account_id": Init::bad_name(r) } }),
                    1 => json!({ "TransfersEnabled": { "transfers_timestamp": "18446744073709551616" } }),
                    _ => json!("TransfersEnabled"),
                },
                "vesting_schedule" => match r.below(5) {
                    0 => Value::Null,
                    1 => json!({ "VestingHash": "*" }),
                    n => {
                        let x = 1000 + r.below(1000);
                        let vs = match n {
                            2 => Vs { start: x, cliff: x, end: x },
                            3 => Vs { start: x + 1, cliff: x, end: x + 9 },
                            _ => Vs { start: x, cliff: x + 9, end: x + 8 },
                        };
                        json!({ "VestingSchedule": vs.json() })
                    }
                },
                "lockup_duration" | "lockup_timestamp" | "release_duration" => json!(*r.pick(&["18446744073709551616", "-1", "", "1.5"])),
                "foundation_account_id" if self.cfg.kind == "lockup" && r.chance(1, 2) => {
                    if r.chance(1, 2) {
                        a["vesting_schedule"] = Value::Null;
                        json!("alice")
                    } else {
                        Value::Null
                    }
                }
                _ => Init::bad_name(r),
            };
        }
        a
    }
    /// A call other than the initialisation.
    fn other(&self, r: &mut Rng) -> (String, Value, u128) {
        let who = || json!("alice");
        let v: Vec<(&str, Value, u128)> = match &*self.cfg.kind {
            "voting" => vec![("ping", json!({}), 0), ("vote", json!({ "is_vote": true }), 0), ("vote", json!({ "is_vote": false }), 0)],
            "whitelist" => ["add_staking_pool", "remove_staking_pool"]
                .iter()
                .map(|m| (*m, json!({ "staking_pool_account_id": who() }), 0))
                .chain(["add_factory", "remove_factory"].iter().map(|m| (*m, json!({ "factory_account_id": who() }), 0)))
                .collect(),
            "staking-pool" => vec![
                ("ping", json!({}), 0),
                ("deposit", json!({}), NEAR),
                ("deposit_and_stake", json!({}), NEAR),
                ("withdraw_all", json!({}), 0),
                ("stake", json!({ "amount": "1" }), 0),
                ("stake_all", json!({}), 0),
                ("unstake_all", json!({}), 0),
                ("pause_staking", json!({}), 0),
                ("resume_staking", json!({}), 0),
                ("on_stake_action", json!({}), 0),
                ("update_staking_key", json!({ "stake_public_key": pk_str("k9") }), 0),
                ("update_reward_fee_fraction", json!({"reward_fee_fraction": {"numerator": 1, "denominator": 3}}), 0),
                ("vote", json!({"voting_account_id": "bob", "is_vote": true}), 0),
            ],
            "staking-pool-factory" => vec![
                (
                    "create_staking_pool",
                    json!({"staking_pool_id": "p", "owner_id": "alice", "stake_public_key": pk_str("k"), "reward_fee_fraction": {"numerator": 1, "denominator": 3}}),
                    40 * NEAR,
                ),
                ("on_staking_pool_create", json!({"staking_pool_account_id": "p.x", "attached_deposit": "1", "predecessor_account_id": "eve"}), 0),
            ],
            "lockup-factory" => vec![
                ("create", json!({"owner_account_id": "alice", "lockup_duration": "0"}), 40 * NEAR),
                (
                    "on_lockup_create",
                    json!({"lockup_account_id": "x.y", "attached_deposit": "1", "predecessor_account_id": "eve"}),
                    0,
                ),
            ],
            "multisig" | "multisig2" => {
                let q = json!({"receiver_id": "eve", "actions": [{"type": "Transfer", "amount": "1000"}]});
                vec![
                    ("add_request", json!({ "request": q }), 0),
                    ("add_request_and_confirm", json!({ "request": q }), 0),
                    ("confirm", json!({ "request_id": 0 }), 0),
                    ("delete_request", json!({ "request_id": 0 }), 0),
                ]
            }
            "lockup" => vec![
                ("select_staking_pool", json!({ "staking_pool_account_id": "bob" }), 0),
                ("unselect_staking_pool", json!({}), 0),
                ("deposit_to_staking_pool", json!({ "amount": "1" }), 0),
                ("transfer", json!({"amount": "1", "receiver_id": "eve"}), 0),
                ("add_full_access_key", json!({ "new_public_key": pk_str("k") }), 0),
                ("check_transfers_vote", json!({}), 0),
                ("terminate_vesting", json!({}), 0),
                ("termination_withdraw", json!({ "receiver_id": "eve" }), 0),
            ],
            _ => vec![
                ("near_deposit", json!({}), NEAR),
                ("near_withdraw", json!({ "amount": "0" }), 1),
                ("storage_deposit", json!({}), NEAR),
                ("ft_transfer", json!({"receiver_id": "bob", "amount": "1"}), 1),
                ("storage_unregister", json!({}), 1),
            ],
        };
        let (m, a, d) = r.pick(&v).clone();
        (m.into(), a, d)
    }
    /// What is reported right after the initialisation.
    fn reported(&self, w: &mut World, a: &Value) -> Vec<(String, Option<Value>, Value)> {
        let app = self.cfg.app.clone();
        let mut v = vec![];
        let mut is = |w: &mut World, m: &str, q: Value, e: Value| {
            let x = w.vj(&app, m, q);
            v.push((m.to_string(), x, e));
        };
        match &*self.cfg.kind {
            "voting" => {
                is(w, "get_result", json!({}), Value::Null);
                is(w, "get_votes", json!({}), json!({}));
            }
            "whitelist" => {
                is(w, "is_whitelisted", json!({ "staking_pool_account_id": "alice" }), json!(false));
                is(w, "is_factory_whitelisted", json!({ "factory_account_id": "alice" }), json!(false));
            }
            "staking-pool" => {
                let k = s(&a["stake_public_key"]);
                is(w, "get_owner_id", json!({}), a["owner_id"].clone());
                is(w, "get_staking_key", json!({}), json!(format!("ed25519:{}", k.strip_prefix("ed25519:").unwrap_or(&k))));
                is(w, "get_reward_fee_fraction", json!({}), a["reward_fee_fraction"].clone());
                is(w, "is_staking_paused", json!({}), json!(false));
                is(w, "get_number_of_accounts", json!({}), json!(0));
                is(w, "get_account_total_balance", json!({ "account_id": a["owner_id"] }), json!("0"));
            }
            "staking-pool-factory" => is(w, "get_number_of_staking_pools_created", json!({}), json!(0)),
            "lockup-factory" => {
                is(w, "get_foundation_account_id", json!({}), a["foundation_account_id"].clone());
                is(w, "get_lockup_master_account_id", json!({}), json!(app));
            }
            "multisig" => {
                is(w, "get_num_confirmations", json!({}), a["num_confirmations"].clone());
                is(w, "list_request_ids", json!({}), json!([]));
                is(w, "get_request_nonce", json!({}), json!(0));
            }
            "multisig2" => {
                is(w, "get_num_confirmations", json!({}), a["num_confirmations"].clone());
                is(w, "list_request_ids", json!({}), json!([]));
                let x = w.vj(&app, "get_members", json!({}));
                let set = x.as_ref().map(|x| members(&json!({ "members": x })));
                v.push(("members".into(), set.map(|x| json!(x)), json!(members(a))));
            }
            "lockup" => {
                is(w, "get_owner_account_id", json!({}), a["owner_account_id"].clone());
                is(w, "get_staking_pool_account_id", json!({}), Value::Null);
                is(w, "get_known_deposited_balance", json!({}), json!("0"));
                is(w, "are_transfers_enabled", json!({}), json!(a["transfers_information"].get("TransfersEnabled").is_some()));
                is(w, "get_termination_status", json!({}), Value::Null);
                let e = match &a["vesting_schedule"] {
                    Value::Null => json!("None"),
                    v => v.clone(),
                };
                is(w, "get_vesting_information", json!({}), e);
                // the whole schedule
                let num = |v: &Value| u(v).map(|x| x as u64);
                let have = w.amount(&app);
                let mut sc = Sched {
                    amount: 0,
                    withdrawn: 0,
                    lockup_duration: num(&a["lockup_duration"]).unwrap_or(0),
                    lockup_timestamp: num(&a["lockup_timestamp"]),
                    release: num(&a["release_duration"]),
                    transfers: num(&a["transfers_information"]["TransfersEnabled"]["transfers_timestamp"]),
                    vest: match &a["vesting_schedule"]["VestingSchedule"] {
                        Value::Null if a["vesting_schedule"].is_null() => Vest::None,
                        Value::Null => Vest::Hash,
                        v => Vest::Plain(Vs::of(v).unwrap()),
                    },
                };
                let now = w.time;
                w.time = 0;
                sc.amount = w.vu(&app, "get_locked_amount", json!({})).unwrap_or(0);
                if sc.unlock() != Some(0) {
                    v.push((
                        "the lockup amount".into(),
                        Some(json!(sc.amount <= have && sc.amount + NEAR / 100 >= have)),
                        json!(true),
                    ));
                    for t in sc.instants(None) {
                        w.time = t;
                        let x = w.vu(&app, "get_locked_amount", json!({}));
                        v.push((format!("get_locked_amount at {}", t), x.map(st), st(sc.locked(t))));
                    }
                }
                w.time = now;
            }
            _ => {
                is(w, "ft_total_supply", json!({}), json!("0"));
                is(w, "storage_balance_of", json!({ "account_id": "alice" }), Value::Null);
            }
        }
        v
    }
}

impl Family for Init {
    fn config(r: &mut Rng, _prop: &str) -> Value {
        let f = r.chance(3, 4);
        let kind = r.pick(KINDS).to_string();
        let app = match r.below(4) {
            0 if kind == "lockup-factory" => "f".repeat(24),
            1 => "f".repeat(23),
            _ => "app".into(),
        };
        serde_json::to_value(Cfg {
            kind,
            app,
            low_gas: if f { r.below(40) } else { 0 },
            bad: if f { r.below(100) } else { 0 },
            other: r.below(60),
            deploy: r.below(8),
            delete: r.below(8),
            deliver: *r.pick(&[0, 30, 60]),
            poor: r.chance(1, 10),
        })
        .unwrap()
    }
    fn setup(env: &Env, prop: &str, cfg: &Value) -> Driver<Self> {
        let cfg: Cfg = serde_json::from_value(cfg.clone()).unwrap();
        let mut w = env.world();
        w.create(&cfg.app, 1000 * NEAR);
        w.deploy(&cfg.app, &env.code(&cfg.kind));
        for u in USERS {
            w.create(u, 1_000_000 * NEAR);
        }
        w.create("ext.near", 1000 * NEAR);
        w.stubs.insert(("ext.near".into(), "*".into()), Reply::default());
        let mut d = Driver::new(w, Init { cfg: cfg.clone(), init: false, st: Storage::new() }, prop);
        if cfg.poor {
            // little is left for storage
            let a = &d.w.accounts[&cfg.app];
            let need = a.usage as u128 * d.w.cfg.storage_price + NEAR / 100;
            if a.amount > need {
                let amount = a.amount - need;
                d.apply(&Step::Send { from: cfg.app, to: "bob".into(), amount });
                d.apply(&Step::Drain);
            }
        }
        d
    }
    fn relay(&self) -> Option<&'static str> {
        Some("ext.near")
    }
    fn watched(&self) -> Vec<String> {
        vec![self.cfg.app.clone()]
    }
    fn next(&mut self, w: &mut World, r: &mut Rng, _o: &mut Out) -> Step {
        let busy = !w.queues.is_empty();
        let c = self.cfg.clone();
        let app = c.app.clone();
        let who = if r.chance(1, 8) { app.clone() } else { r.pick(USERS).to_string() };
        if !w.exists(&app) {
            return match r.below(4) {
                0 => tx("eve", &app, "new", self.args(r), 0, FULL_GAS),
                1 if busy => Step::Drain,
                _ => Step::Create { account: app, amount: 1000 * NEAR },
            };
        }
        if w.accounts[&app].code.is_none() {
            return if r.chance(1, 3) { Step::Drain } else { Step::Code { account: app, code: c.kind } };
        }
        match r.weighted(&[40, c.other, if busy { c.deliver } else { 0 }, if busy { 20 } else { 0 }, c.deploy, c.delete]) {
            0 => {
                let g = if r.chance(c.low_gas, 100) { r.range(1, 60) * TGAS / 4 } else { FULL_GAS };
                tx(&who, &app, "new", self.args(r), if r.chance(1, 20) { NEAR } else { 0 }, g)
            }
            1 => {
                let (m, a, d) = self.other(r);
                tx(&who, &app, &m, a, d, gas(r, c.low_gas))
            }
            2 => pick_channel(w, r).unwrap(),
            3 => Step::Drain,
            4 => Step::Code { account: app, code: c.kind },
            _ => Step::Delete { account: app, beneficiary: "bob".into() },
        }
    }
    fn exec(&mut self, w: &mut World, o: &mut Out, ev: &Exec) {
        let app = self.cfg.app.clone();
        if ev.receipt.receiver != app {
            return;
        }
        let now = w.accounts.get(&app).map_or(Storage::new(), |a| a.storage.clone());
        if ev.ok && ev.receipt.actions().iter().any(|a| if let Action::DeleteAccount { .. } = a { true } else { false }) {
            self.init = false;
            self.st = now;
            return;
        }
        let kind = self.cfg.kind.clone();
        let what = || format!("{} {} by {} on {}", ev.receipt.method().unwrap_or("-"), args_json(&ev.receipt), ev.receipt.predecessor, kind);
        match ev.receipt.method() {
            Some("new") => {
                let a = args_json(&ev.receipt);
                let fit = self.fit(&a);
                if self.init {
                    o.count("again");
                    o.check(!ev.ok, T, "again", || format!("{} was accepted although initialised", what()));
                    o.check(now == self.st, T, "changed_again", || format!("{} changed the state although initialised", what()));
                } else if ev.ok {
                    o.count(&format!("init_{}", self.cfg.kind));
                    o.check(fit != Fit::No, T, "invalid", || format!("{} was accepted", what()));
                    self.init = true;
                    if fit != Fit::No {
                        for (m, x, e) in self.reported(w, &a) {
                            o.check(x.as_ref() == Some(&e), T, "reported", || format!("{} reports {:?}, expected {} after {}", m, x, e, what()));
                        }
                    }
                } else {
                    let code = w.accounts.get(&app).map_or(false, |a| a.code.is_some());
                    let env = match ev.fail {
                        Some(Fail::Storage) => true,
                        Some(Fail::Gas) => ev.receipt.gas() < FULL_GAS,
                        _ => ev.receipt.deposit() > 0 || !code || w.accounts.get(&app).map_or(false, |a| a.locked > 0),
                    };
                    if fit == Fit::No {
                        o.count("invalid_refused");
                    }
                    o.check(env || fit != Fit::Yes, T, "refused", || format!("{} failed: {}", what(), ev.err));
                    o.check(now == self.st, T, "changed_by_refused", || format!("{} failed but changed the state", what()));
                }
            }
            Some(m) if !self.init => {
                o.count("too_early");
                o.check(!ev.ok, T, "too_early", || format!("{} was accepted before the initialisation ({})", what(), m));
                o.check(now == self.st, T, "changed_early", || format!("{} changed the state before the initialisation", what()));
                let sent = ev.sent().next().is_some();
                o.check(!sent, T, "sent_early", || format!("{} sent something before the initialisation", what()));
            }
            Some(_) => {}
            None => o.check(now == self.st, T, "changed_by_other", || "a plain receipt changed the state".into()),
        }
        self.st = now;
    }
    fn after(&mut self, w: &mut World, o: &mut Out, _s: &Step) {
        let now = w.accounts.get(&self.cfg.app).map_or(true, |a| a.storage == self.st);
        o.check(now, T, "changed_between", || "the state changed although nothing was executed".into());
    }
    fn close(d: &mut Driver<Self>) {
        d.apply(&Step::Drain);
        let app = d.f.cfg.app.clone();
        if !d.w.exists(&app) {
            d.apply(&Step::Create { account: app.clone(), amount: 1000 * NEAR });
        }
        d.apply(&Step::Send { from: "alice".into(), to: app.clone(), amount: 1000 * NEAR });
        d.apply(&Step::Drain);
        let kind = d.f.cfg.kind.clone();
        d.apply(&Step::Code { account: app.clone(), code: kind });
        d.apply(&Step::Drain);
        // whoever comes first can initialise it, and nobody after
        let bad = std::mem::replace(&mut d.f.cfg.bad, 0);
        let fit: Vec<Value> = (0..50).map(|i| d.f.args(&mut Rng::new(i))).filter(|a| d.f.fit(a) == Fit::Yes).take(2).collect();
        d.f.cfg.bad = bad;
        for a in &fit {
            d.apply(&tx("bob", &app, "new", a.clone(), 0, FULL_GAS));
            d.apply(&Step::Drain);
        }
        // (a pool whose stake outlived it has to unstake first)
        let free = d.w.accounts.get(&app).map_or(false, |a| a.locked == 0);
        let (i, n) = (d.f.init, fit.len());
        d.o.check(i || n == 0 || !free, T, "never_initialised", || "it cannot be initialised any more".into());
    }
}
