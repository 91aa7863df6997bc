//! Staking pool: delegators, owner, outsiders, voting contract stub, epochs and faults.
use super::common::*;
use crate::engine::Env;
use crate::sim::*;
use crate::util::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

const P: &str = "pool";
const GUARANTEE: u128 = 1_000_000_000_000;
const LOCK: u64 = 4;
const ALL: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"];

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Cfg {
    n: u64,
    #[serde(with = "dec")]
    init: u128,
    fee: (u32, u32),
    /// log2 of the largest ordinary amount
    scale: u32,
    #[serde(with = "dec")]
    reward: u128,
    low_gas: u64,
    kick: u64,
    minstake: u64,
    delete: u64,
    stray: u64,
    owner_ops: u64,
    outsider: u64,
    epoch: u64,
    deliver: u64,
    drain: u64,
    /// further delegators who deposit before the run proper begins
    #[serde(default)]
    crowd: u64,
    /// gas costs nothing, so that no gas rebate drowns small incomes
    #[serde(default)]
    free_gas: bool,
}

#[derive(Clone, Debug, Default, PartialEq)]
struct Acc {
    unstaked: u128,
    shares: u128,
    avail: u64,
}
/// Reference model of the pool (documented share accounting, exact integers).
#[derive(Clone, Debug)]
struct Model {
    t: u128,
    s: u128,
    last_total: u128,
    last_epoch: u64,
    acc: BTreeMap<String, Acc>,
    paused: bool,
    fee: (u32, u32),
    key: Vec<u8>,
    owner: String,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Why {
    NotOwner,
    NotCallback,
    Reinit,
    BadFee,
    Locked,
    Amount,
    Args,
    Deposit,
    State,
}
#[derive(Default, Debug)]
struct Effect {
    restake: bool,
    stake_zero: bool,
    pay: u128,
    vote: Option<(String, bool)>,
    reward: u128,
    changed_epoch: bool,
}
fn div_up(a: u128, b: u128, c: u128) -> Option<u128> {
    mul_div_up(a, b, c)
}
impl Model {
    fn get(&self, a: &str) -> Acc {
        self.acc.get(a).cloned().unwrap_or_default()
    }
    fn put(&mut self, a: &str, x: Acc) {
        if x.unstaked > 0 || x.shares > 0 {
            self.acc.insert(a.into(), x);
        } else {
            self.acc.remove(a);
        }
    }
    fn staked(&self, shares: u128) -> u128 {
        mul_div(self.t, shares, self.s).unwrap_or(0)
    }
    fn ping(&mut self, total: u128, epoch: u64, e: &mut Effect) {
        if epoch == self.last_epoch {
            return;
        }
        e.changed_epoch = true;
        self.last_epoch = epoch;
        let r = total.saturating_sub(self.last_total);
        if r > 0 {
            e.reward = r;
            let fee = mul_div(self.fee.0 as u128, r, self.fee.1 as u128).unwrap();
            self.t += r - fee;
            let n = mul_div(self.s, fee, self.t).unwrap();
            if n > 0 {
                let o = self.owner.clone();
                let mut a = self.get(&o);
                a.shares += n;
                self.put(&o, a);
                self.s += n;
            }
            self.t += fee;
        }
        self.last_total = total;
    }
    fn stake(&mut self, who: &str, amount: u128) -> Result<(), Why> {
        if amount == 0 {
            return Err(Why::Amount);
        }
        let mut a = self.get(who);
        let n = mul_div(self.s, amount, self.t).ok_or(Why::Amount)?;
        if n == 0 {
            return Err(Why::Amount);
        }
        let charge = mul_div(self.t, n, self.s).ok_or(Why::Amount)?;
        if charge == 0 || a.unstaked < charge {
            return Err(Why::Amount);
        }
        a.unstaked -= charge;
        a.shares += n;
        self.put(who, a);
        let up = div_up(self.t, n, self.s).ok_or(Why::Amount)?;
        self.t += up;
        self.s += n;
        Ok(())
    }
    fn unstake(&mut self, who: &str, amount: u128, epoch: u64) -> Result<(), Why> {
        if amount == 0 {
            return Err(Why::Amount);
        }
        let mut a = self.get(who);
        let n = div_up(self.s, amount, self.t).ok_or(Why::Amount)?;
        if n == 0 || a.shares < n {
            return Err(Why::Amount);
        }
        let rec = div_up(self.t, n, self.s).ok_or(Why::Amount)?;
        a.shares -= n;
        a.unstaked += rec;
        a.avail = epoch + LOCK;
        self.put(who, a);
        let down = mul_div(self.t, n, self.s).unwrap();
        self.t -= down;
        self.s -= n;
        Ok(())
    }
    fn withdraw(&mut self, who: &str, amount: u128, epoch: u64, e: &mut Effect) -> Result<(), Why> {
        let mut a = self.get(who);
        if amount == 0 || a.unstaked < amount {
            return Err(Why::Amount);
        }
        if a.avail > epoch {
            return Err(Why::Locked);
        }
        a.unstaked -= amount;
        self.put(who, a);
        self.last_total -= amount;
        e.pay = amount;
        Ok(())
    }
    fn call(&mut self, ev: &Exec) -> Result<Effect, Why> {
        let mut e = Effect::default();
        let m = ev.receipt.method().unwrap_or("");
        let who = &ev.receipt.predecessor;
        let dep = ev.receipt.deposit();
        let (am, lo) = ev.pre.unwrap_or((0, 0));
        let total = am + lo;
        let args = args_json(&ev.receipt);
        let amount = || args.get("amount").and_then(|v| v.as_str()).and_then(|v| v.parse::<u128>().ok()).ok_or(Why::Args);
        let ep = ev.epoch;
        if dep > 0 && m != "deposit" && m != "deposit_and_stake" {
            return Err(Why::Deposit);
        }
        let owner = *who == self.owner;
        match m {
            "new" => return Err(Why::Reinit),
            "ping" => {
                self.ping(total, ep, &mut e);
                e.restake = e.changed_epoch;
            }
            "deposit" | "deposit_and_stake" => {
                self.ping(total, ep, &mut e);
                let mut a = self.get(who);
                a.unstaked += dep;
                self.put(who, a);
                self.last_total += dep;
                if m == "deposit_and_stake" {
                    self.stake(who, dep)?;
                    e.restake = true;
                } else {
                    e.restake = e.changed_epoch;
                }
            }
            "withdraw" | "withdraw_all" => {
                let x = if m == "withdraw" { amount()? } else { self.get(who).unstaked };
                self.ping(total, ep, &mut e);
                self.withdraw(who, x, ep, &mut e)?;
                e.restake = e.changed_epoch;
            }
            "stake" | "stake_all" => {
                self.ping(total, ep, &mut e);
                let x = if m == "stake" { amount()? } else { self.get(who).unstaked };
                self.stake(who, x)?;
                e.restake = true;
            }
            "unstake" | "unstake_all" => {
                self.ping(total, ep, &mut e);
                let x = if m == "unstake" { amount()? } else { self.staked(self.get(who).shares) };
                self.unstake(who, x, ep)?;
                e.restake = true;
            }
            "update_staking_key" => {
                if !owner {
                    return Err(Why::NotOwner);
                }
                let k = s(&args["stake_public_key"]);
                let pk = bs58::decode(k.strip_prefix("ed25519:").unwrap_or("0")).into_vec().map_err(|_| Why::Args)?;
                if pk.len() != 32 {
                    return Err(Why::Args);
                }
                self.ping(total, ep, &mut e);
                self.key = std::iter::once(0).chain(pk).collect();
                e.restake = true;
            }
            "update_reward_fee_fraction" => {
                if !owner {
                    return Err(Why::NotOwner);
                }
                let f = &args["reward_fee_fraction"];
                let (n, d) = (f["numerator"].as_u64(), f["denominator"].as_u64());
                let (n, d) = (n.ok_or(Why::Args)? as u32, d.ok_or(Why::Args)? as u32);
                if d == 0 || n > d {
                    return Err(Why::BadFee);
                }
                self.ping(total, ep, &mut e);
                self.fee = (n, d);
                e.restake = e.changed_epoch;
            }
            "vote" => {
                if !owner {
                    return Err(Why::NotOwner);
                }
                let v = s(&args["voting_account_id"]);
                if !valid_account_id(&v) {
                    return Err(Why::Args);
                }
                e.vote = Some((v, args["is_vote"].as_bool().ok_or(Why::Args)?));
            }
            "pause_staking" | "resume_staking" => {
                if !owner {
                    return Err(Why::NotOwner);
                }
                let pause = m == "pause_staking";
                if self.paused == pause {
                    return Err(Why::State);
                }
                self.ping(total, ep, &mut e);
                self.paused = pause;
                e.stake_zero = pause;
                e.restake = !pause;
            }
            "on_stake_action" => {
                if who != P || ev.results.len() != 1 {
                    return Err(Why::NotCallback);
                }
                e.stake_zero = ev.results[0] == PromiseResultC::Failed && lo > 0;
            }
            _ => return Err(Why::Args),
        }
        if self.paused {
            e.restake = false;
        }
        Ok(e)
    }
}

#[derive(Clone, Debug, Default)]
struct Snap {
    t: u128,
    acc: BTreeMap<String, (u128, u128)>,
}

pub struct Pool {
    cfg: Cfg,
    m: Model,
    snap: Snap,
    storage: u64,
    /// epoch of the last executed unstake per delegator
    unstaked_at: BTreeMap<String, u64>,
    ids: Vec<String>,
    n_exec: u64,
    /// the crowd is still arriving: the listing is looked at when it is there
    filling: bool,
}

fn frac(f: (u32, u32)) -> Value {
    json!({"numerator": f.0, "denominator": f.1})
}
fn hash_storage(w: &World, id: &str) -> u64 {
    let mut h = 0;
    if let Some(a) = w.accounts.get(id) {
        for (k, v) in &a.storage {
            h = mix(h ^ hash64(k) ^ hash64(v).rotate_left(7));
        }
    }
    h
}

impl Pool {
    fn read_snap(w: &mut World) -> Option<Snap> {
        let t = w.vu(P, "get_total_staked_balance", json!({}))?;
        let l = w.vj(P, "get_accounts", json!({"from_index": 0, "limit": 1000}))?;
        let mut acc = BTreeMap::new();
        for x in l.as_array()? {
            let id = s(&x["account_id"]);
            acc.insert(id, (u(&x["unstaked_balance"])?, u(&x["staked_balance"])?));
        }
        Some(Snap { t, acc })
    }
    fn owner(&self) -> String {
        self.m.owner.clone()
    }

    fn owner_call(&self, who: &str, r: &mut Rng, low: u64) -> Step {
        let g = gas(r, low);
        match r.below(8) {
            0 | 1 => tx(who, P, "pause_staking", json!({}), 0, g),
            2 | 3 => tx(who, P, "resume_staking", json!({}), 0, g),
            4 => {
                let k = if r.chance(1, 6) { "ed25519:0OIl".to_string() } else { pk_str(&format!("validator{}", r.below(3))) };
                tx(who, P, "update_staking_key", json!({ "stake_public_key": k }), 0, g)
            }
            5 | 6 => {
                let f = match r.below(6) {
                    0 => (0, 1),
                    1 => (1, 1),
                    2 => (1, 0),
                    3 => (0, 0),
                    4 => {
                        let d = r.below(1000) as u32;
                        (d + 1 + r.below(3) as u32, d)
                    }
                    _ => {
                        let d = 1 + r.below(1000) as u32;
                        (r.below(d as u64 + 1) as u32, d)
                    }
                };
                tx(who, P, "update_reward_fee_fraction", json!({ "reward_fee_fraction": frac(f) }), 0, g)
            }
            _ => {
                let v = if r.chance(1, 5) { "Bad!" } else { "voting" };
                tx(who, P, "vote", json!({"voting_account_id": v, "is_vote": r.chance(1, 2)}), 0, g)
            }
        }
    }

    fn check_state(&mut self, w: &mut World, o: &mut Out, ev: &Exec, old: &Snap, dist: u128) {
        let new = self.snap.clone();
        let a = &w.accounts[P];
        // C01
        let unst: u128 = new.acc.values().map(|x| x.0).sum();
        let stk: u128 = new.acc.values().map(|x| x.1).sum();
        let have = a.amount + a.locked;
        o.check(have >= unst + new.t, &["C01"], "insolvent", || {
            format!("pool holds {} but owes unstaked {} + total staked {} after {:?}", have, unst, new.t, ev.receipt.method())
        });
        o.check(new.t >= stk, &["C01"], "staked_over_total", || {
            format!("staked balances sum {} exceeds total staked {}", stk, new.t)
        });
        // C02
        let who = &ev.receipt.predecessor;
        let paid: u128 = ev.sent().filter(|r| r.receiver == *who && r.method().is_none()).map(|r| r.deposit()).sum();
        let mut names: Vec<String> = old.acc.keys().cloned().collect();
        names.extend(new.acc.keys().cloned());
        names.sort();
        names.dedup();
        for n in &names {
            let (u0, s0) = old.acc.get(n).cloned().unwrap_or((0, 0));
            let (u1, s1) = new.acc.get(n).cloned().unwrap_or((0, 0));
            if n == who {
                let m = ev.receipt.method().unwrap_or("");
                let paid = if m.starts_with("withdraw") { paid } else { 0 };
                o.check(u1 + s1 + paid >= u0 + s0, &["C02"], "own_loss", || {
                    format!("{} had {}+{} now {}+{} after own {} paying {}", n, u0, s0, u1, s1, m, paid)
                });
                if !m.starts_with("withdraw") && !m.starts_with("stake") && m != "deposit_and_stake" {
                    o.check(u1 >= u0, &["C02"], "own_unstaked_loss", || format!("{} unstaked {} -> {} by {}", n, u0, u1, m));
                }
                if !m.starts_with("unstake") {
                    o.check(s1 >= s0, &["C02"], "own_staked_loss", || format!("{} staked {} -> {} by {}", n, s0, s1, m));
                }
            } else {
                o.check(u1 >= u0 && s1 >= s0, &["C02", "C06"], "others_loss", || {
                    format!("{}'s balances {}+{} became {}+{} by {}'s {:?}", n, u0, s0, u1, s1, who, ev.receipt.method())
                });
                o.check(u1 == u0, &["C06"], "others_unstaked_changed", || {
                    format!("{}'s unstaked {} became {} by {}'s {:?}", n, u0, u1, who, ev.receipt.method())
                });
                if dist == 0 && who != P {
                    // only rounding of the share price can move others' staked balance
                    let bound = if self.m.s > 0 { 2 + 2 * (s1 / self.m.s.max(1)) } else { 2 };
                    o.check(s1 - s0.min(s1) <= bound.max(2), &["C06", "C03"], "others_gain", || {
                        format!("{}'s staked {} became {} by {}'s {:?} without income", n, s0, s1, who, ev.receipt.method())
                    });
                }
            }
        }
        // exact model
        let mt = self.m.t;
        // beyond rounding, tokens were distributed that should not have been, or not distributed
        let far = new.t.max(mt) - new.t.min(mt) > 2 + 2 * (mt / self.m.s.max(1));
        let tags: &[&'static str] = if dist > 0 || far { &["C05", "C03"] } else { &["C03"] };
        o.check(new.t == mt, tags, "total_staked_mismatch", || {
            format!("total staked {} but accounting gives {} after {:?} by {} (income {})", new.t, mt, ev.receipt.method(), who, dist)
        });
        let mut exp = BTreeMap::new();
        for (k, a) in &self.m.acc {
            exp.insert(k.clone(), (a.unstaked, self.m.staked(a.shares)));
        }
        let owner = self.m.owner.clone();
        if exp != new.acc {
            let diff: Vec<_> = names.iter().chain(exp.keys()).filter(|n| exp.get(*n) != new.acc.get(*n)).cloned().collect();
            let mut t = tags.to_vec();
            if exp.keys().ne(new.acc.keys()) {
                t.push("C08");
            }
            if diff.iter().any(|d| d != who && *d != owner) {
                t.push("C06");
            }
            o.checks += 1;
            o.fail(&t, "balances_mismatch", format!(
                "{:?} after {:?} by {}: reported {:?}, accounting gives {:?}", diff, ev.receipt.method(), who, new.acc, exp));
        }
        if new.t < self.m.s {
            o.fail(&["C02"], "price_below_one", format!("total staked {} for {} shares", new.t, self.m.s));
        }
    }

    fn check_config(&mut self, w: &mut World, o: &mut Out) {
        let m = &self.m;
        let f = w.vj(P, "get_reward_fee_fraction", json!({})).unwrap_or(Value::Null);
        o.check(f == frac(m.fee), &["C06", "C05"], "fee_changed", || format!("fee is {} expected {:?}", f, m.fee));
        let p = w.vj(P, "is_staking_paused", json!({})).unwrap_or(Value::Null);
        o.check(p == json!(m.paused), &["C06", "C07"], "paused_changed", || format!("paused is {} expected {}", p, m.paused));
        let k = w.vj(P, "get_staking_key", json!({})).unwrap_or(Value::Null);
        o.check(k == json!(pk_text(&m.key)), &["C06", "C07"], "key_changed", || format!("key is {} expected {}", k, pk_text(&m.key)));
        let ow = w.vj(P, "get_owner_id", json!({})).unwrap_or(Value::Null);
        o.check(ow == json!(m.owner), &["C06"], "owner_changed", || format!("owner is {}", ow));
    }

    fn check_listing(&mut self, w: &mut World, o: &mut Out) {
        let n = w.vj(P, "get_number_of_accounts", json!({})).and_then(|v| v.as_u64());
        let len = self.snap.acc.len() as u64;
        o.check(n == Some(len), &["C08"], "account_count", || format!("number of accounts {:?}, listing has {}", n, len));
        let pages = if len < 20 { [1u64, 2, 3] } else { [13, len / 2 + 1, len] };
        for page in pages {
            let mut got = vec![];
            let mut i = 0;
            while i < len + page {
                let v = w.vj(P, "get_accounts", json!({"from_index": i, "limit": page}));
                match v.as_ref().and_then(|v| v.as_array()) {
                    Some(a) => {
                        o.check(a.len() as u64 == page.min(len.saturating_sub(i)), &["C08"], "page_size", || {
                            format!("page {}+{} of {} has {} entries", i, page, len, a.len())
                        });
                        got.extend(a.iter().cloned())
                    }
                    // a page starting past the end may be refused or empty
                    None => o.check(i > len, &["C08"], "page_fails", || format!("page {}+{} of {} fails", i, page, len)),
                }
                i += page;
            }
            let mut names: Vec<_> = got.iter().map(|x| s(&x["account_id"])).collect();
            names.sort();
            names.dedup();
            let same = names.len() == got.len() && names.iter().eq(self.snap.acc.keys());
            o.check(same, &["C08"], "listing", || format!("pages of {} give {:?}, accounts {:?}", page, names, self.snap.acc.keys()));
            if page == pages[1] {
                for x in got.iter().rev().take(20) {
                    let id = s(&x["account_id"]);
                    let one = w.vj(P, "get_account", json!({"account_id": id})).unwrap_or(Value::Null);
                    o.check(one == *x, &["C08"], "listing_entry", || format!("listed {} single view {}", x, one));
                    o.check(x["unstaked_balance"] != "0" || x["staked_balance"] != "0", &["C08"], "empty_listed", || {
                        format!("empty account listed: {}", x)
                    });
                }
            }
        }
        // everything from an index on: the largest sizes that can be asked for
        for i in [0, 1, len / 2, len] {
            for limit in [len, u64::MAX - i, u64::MAX] {
                let v = w.vj(P, "get_accounts", json!({"from_index": i, "limit": limit}));
                let got = v.as_ref().and_then(|v| v.as_array()).map(|a| a.len() as u64);
                o.check(got == Some(len.saturating_sub(i)) || (i >= len && got.is_none()), &["C08"], "large_page", || {
                    format!("page {}+{} of {} has {:?} entries", i, limit, len, got)
                });
            }
        }
        for id in self.ids.clone() {
            let (u1, s1) = self.snap.acc.get(&id).cloned().unwrap_or((0, 0));
            let a = w.vj(P, "get_account", json!({"account_id": id})).unwrap_or(Value::Null);
            let ok = a["unstaked_balance"] == st(u1) && a["staked_balance"] == st(s1) && a["account_id"] == json!(id);
            o.check(ok, &["C08"], "unlisted_account", || format!("{}: single view {} but listing {} {}", id, a, u1, s1));
            let tot = w.vu(P, "get_account_total_balance", json!({"account_id": id}));
            o.check(tot == Some(u1 + s1), &["C08"], "total_view", || format!("{}: total view {:?}", id, tot));
            let x = w.vu(P, "get_account_unstaked_balance", json!({"account_id": id}));
            let y = w.vu(P, "get_account_staked_balance", json!({"account_id": id}));
            o.check(x == Some(u1) && y == Some(s1), &["C08"], "balance_views", || format!("{}: balance views {:?} {:?}", id, x, y));
        }
    }
    fn check_availability(&mut self, w: &mut World, o: &mut Out) {
        for id in self.ids.clone() {
            let (un, _) = self.snap.acc.get(&id).cloned().unwrap_or((0, 0));
            let open = self.unstaked_at.get(&id).map_or(true, |e| w.epoch >= e + LOCK);
            let v = w.vj(P, "is_account_unstaked_balance_available", json!({"account_id": id}));
            // an empty account has nothing to lock: both answers are fine
            let known = self.snap.acc.contains_key(&id);
            o.check(v == Some(json!(open)) || !known, &["C04"], "availability_view", || {
                format!("{} (unstaked {}): availability {:?} in epoch {}, last unstake {:?}", id, un, v, w.epoch, self.unstaked_at.get(&id))
            });
        }
    }
}

impl Family for Pool {
    fn config(r: &mut Rng, prop: &str) -> Value {
        let d = match r.below(5) {
            0 => (0, 1),
            1 => (1, 1),
            2 => (10, 100),
            3 => {
                let d = 1 + r.below(7) as u32;
                (r.below(d as u64 + 1) as u32, d)
            }
            _ => {
                let d = 1 + (r.next() as u32 >> r.below(32)).min(u32::MAX - 1);
                (r.below(d as u64 + 1) as u32, d)
            }
        };
        let faults = r.chance(3, 4);
        let f = |r: &mut Rng, m: u64| if faults && r.chance(1, 2) { r.range(1, m) } else { 0 };
        let c = Cfg {
            n: r.range(1, 5),
            init: match r.below(3) {
                0 => NEAR + r.below128(NEAR),
                1 => 30 * NEAR,
                _ => NEAR * r.range(2, 5000) as u128 + r.below128(NEAR),
            },
            fee: d,
            scale: *r.pick(&[5u32, 40, 80, 90, 93]),
            reward: match r.below(4) {
                0 => 1 + r.below(1000) as u128,
                1 => NEAR / 100,
                2 => NEAR * 1000,
                _ => NEAR * 3_000_000,
            },
            low_gas: f(r, 15),
            kick: f(r, 40),
            minstake: f(r, 8),
            delete: f(r, 6),
            stray: if r.chance(1, 2) { r.range(1, 8) } else { 0 },
            owner_ops: r.below(12),
            outsider: r.below(6),
            epoch: r.range(4, 22),
            deliver: *r.pick(&[0u64, 60, 120]),
            drain: r.range(10, 80),
            crowd: if prop == "C08" && r.chance(1, 40) { r.range(10, 150) } else { 0 },
            free_gas: r.chance(1, 3),
        };
        serde_json::to_value(c).unwrap()
    }

    fn setup(env: &Env, prop: &str, cfg: &Value) -> Driver<Self> {
        let cfg: Cfg = serde_json::from_value(cfg.clone()).unwrap();
        let mut w = env.world();
        if cfg.free_gas {
            w.cfg.gas_price = 0;
        }
        w.contract(P, cfg.init, &env.code("staking-pool"));
        let mut ids: Vec<String> = (0..cfg.n).map(|i| format!("d{}.near", i)).collect();
        ids.push("owner".into());
        for i in &ids {
            w.create(i, 1_000_000_000 * NEAR);
        }
        w.create("outsider", 1_000_000_000 * NEAR);
        w.create("voting", 1_000_000_000 * NEAR);
        w.stubs.insert(("voting".into(), "*".into()), Reply::default());
        w.val.min_stake = 0;
        let m = Model {
            t: cfg.init - GUARANTEE,
            s: cfg.init - GUARANTEE,
            last_total: cfg.init,
            last_epoch: w.epoch,
            acc: BTreeMap::new(),
            paused: false,
            fee: cfg.fee,
            key: pk_of("validator0"),
            owner: "owner".into(),
        };
        let f = Pool { cfg: cfg.clone(), m, snap: Snap::default(), storage: 0, unstaked_at: BTreeMap::new(), ids, n_exec: 0, filling: cfg.crowd > 0 };
        let mut d = Driver::new(w, f, prop);
        let args = json!({"owner_id": "owner", "stake_public_key": pk_str("validator0"), "reward_fee_fraction": frac(cfg.fee)});
        d.apply(&tx("outsider", P, "new", args, 0, FULL_GAS));
        d.apply(&Step::Drain);
        let t = d.f.m.t;
        let lo = d.w.accounts[P].locked;
        d.o.check(lo == t, &["C07"], "initial_stake", || format!("after initialisation {} staked, expected {}", lo, t));
        for i in 0..cfg.crowd {
            let id = format!("c{}.near", i);
            d.apply(&Step::Create { account: id.clone(), amount: 1000 * NEAR });
            let m = if i % 3 == 0 { "deposit_and_stake" } else { "deposit" };
            d.apply(&tx(&id, P, m, json!({}), (i as u128 % 7 + 1) * NEAR, FULL_GAS));
            if i % 16 == 15 {
                d.apply(&Step::Drain);
            }
        }
        if cfg.crowd > 0 {
            d.apply(&Step::Drain);
            d.f.filling = false;
            // some of them take part in what follows
            for i in &[0, 1, cfg.crowd / 2, cfg.crowd - 1] {
                d.f.ids.push(format!("c{}.near", i));
            }
            let Driver { w, f, o, .. } = &mut d;
            f.check_listing(w, o);
        }
        d
    }

    fn relay(&self) -> Option<&'static str> {
        Some("voting")
    }

    fn watched(&self) -> Vec<String> {
        vec![P.into()]
    }

    fn next(&mut self, w: &mut World, r: &mut Rng, o: &mut Out) -> Step {
        let c = self.cfg.clone();
        let busy = !w.queues.is_empty();
        let wts = [
            40,
            c.owner_ops,
            c.outsider,
            if busy { c.deliver } else { 0 },
            if busy { c.drain } else { 0 },
            c.epoch,
            c.stray,
            c.delete,
            c.minstake,
            4,
        ];
        let any = |r: &mut Rng, ids: &Vec<String>| r.pick(ids).clone();
        match r.weighted(&wts) {
            0 => {
                let who = any(r, &self.ids);
                if !w.exists(&who) {
                    return Step::Create { account: who, amount: 1_000_000 * NEAR };
                }
                let (un, stk) = self.snap.acc.get(&who).cloned().unwrap_or((0, 0));
                let g = gas(r, c.low_gas);
                let cap: u128 = (1u128 << c.scale).max(100);
                let over = |r: &mut Rng, x: u128| match r.below(12) {
                    0 => x + 1 + r.below(5) as u128,
                    1 => 0,
                    2 if r.chance(1, 10) => u128::MAX - r.below(3) as u128,
                    _ => r.amount(x),
                };
                match r.below(20) {
                    0..=2 => tx(&who, P, "deposit", json!({}), r.amount(cap), g),
                    3..=6 => tx(&who, P, "deposit_and_stake", json!({}), r.amount(cap), g),
                    7..=8 => tx(&who, P, "stake", json!({"amount": st(over(r, un))}), 0, g),
                    9 => tx(&who, P, "stake_all", json!({}), 0, g),
                    10..=12 => tx(&who, P, "unstake", json!({"amount": st(over(r, stk))}), 0, g),
                    13..=14 => tx(&who, P, "unstake_all", json!({}), 0, g),
                    15..=16 => tx(&who, P, "withdraw", json!({"amount": st(over(r, un))}), 0, g),
                    17..=18 => tx(&who, P, "withdraw_all", json!({}), 0, g),
                    _ => tx(&who, P, "ping", json!({}), 0, g),
                }
            }
            1 => {
                let ow = self.owner();
                if !w.exists(&ow) {
                    return Step::Create { account: ow, amount: 1_000_000 * NEAR };
                }
                self.owner_call(&ow, r, c.low_gas)
            }
            2 => {
                // someone without the right to do it
                match r.below(6) {
                    0 => {
                        let who = if r.chance(1, 2) { "outsider".to_string() } else { any(r, &self.ids) };
                        match r.below(3) {
                            0 => tx(&who, P, "on_stake_action", json!({}), 0, FULL_GAS),
                            1 => forge(&who, "voting", P, "on_stake_action", json!({}), None),
                            _ => forge(&who, "voting", P, "on_stake_action", json!({}), Some("true")),
                        }
                    }
                    1 => {
                        let who = any(r, &self.ids);
                        let args = json!({"owner_id": who, "stake_public_key": pk_str("evil"), "reward_fee_fraction": frac((1, 1))});
                        tx(&who, P, "new", args, 0, FULL_GAS)
                    }
                    _ => {
                        let who = if r.chance(1, 2) { "outsider".to_string() } else { self.ids[0].clone() };
                        self.owner_call(&who, r, 0)
                    }
                }
            }
            3 => pick_channel(w, r).unwrap(),
            4 => Step::Drain,
            5 => {
                let rw = match r.below(4) {
                    0 => 0,
                    _ => r.amount(c.reward),
                };
                let kick = if r.chance(c.kick, 100) { vec![P.to_string()] } else { vec![] };
                epoch_step(vec![(P.into(), rw)], kick)
            }
            6 => {
                o.count("stray_transfer");
                Step::Send { from: "outsider".into(), to: P.into(), amount: r.amount(c.reward) }
            }
            7 => {
                let who = any(r, &self.ids);
                if w.exists(&who) {
                    Step::Delete { account: who, beneficiary: "outsider".into() }
                } else {
                    Step::Create { account: who, amount: 1_000_000 * NEAR }
                }
            }
            8 => {
                let t = self.snap.t;
                let v = match r.below(3) {
                    0 => 0,
                    1 => r.amount(t),
                    _ => t + r.amount(t),
                };
                Step::MinStake { v }
            }
            _ => {
                if r.chance(1, 2) {
                    let rep = Reply { fail: r.chance(1, 2), ..Default::default() };
                    Step::Stub { to: "voting".into(), method: "*".into(), reply: rep }
                } else {
                    tx("outsider", P, "ping", json!({}), 0, FULL_GAS)
                }
            }
        }
    }

    fn exec(&mut self, w: &mut World, o: &mut Out, ev: &Exec) {
        if ev.receipt.receiver != P {
            // tokens paid out by the pool that could not be delivered
            if ev.receipt.predecessor == P && !ev.ok && ev.receipt.method().is_none() {
                o.count("withdrawal_transfer_failed");
                w.stats.fault("transfer_to_deleted_account");
            }
            return;
        }
        let acts = ev.receipt.actions();
        if let Some(Action::Stake { stake, .. }) = acts.first() {
            if !ev.ok {
                o.count("stake_action_failed");
                w.stats.fault("stake_action_failure");
                let (_, lo) = ev.pre.unwrap_or((0, 0));
                let has_cb = match &ev.receipt.kind {
                    Kind::Action(a) => !a.outputs.is_empty(),
                    _ => true,
                };
                let stake = *stake;
                o.check(has_cb || stake == 0 || lo == 0, &["C07"], "stake_failure_unnoticed", || {
                    format!("stake of {} failed with {} locked and nothing reacts to it", stake, lo)
                });
            }
        }
        let m = match ev.receipt.method() {
            Some(m) if !ev.receipt.is_refund() => m.to_string(),
            _ => return,
        };
        let who = ev.receipt.predecessor.clone();
        if self.snap.acc.is_empty() && m == "new" && self.storage == 0 {
            // initialisation (driven by setup)
            o.check(ev.ok, ALL, "init_failed", || format!("initialisation failed: {}", ev.err));
            self.storage = hash_storage(w, P);
            match Pool::read_snap(w) {
                Some(x) => self.snap = x,
                None => o.fail(ALL, "views_fail", "views fail after initialisation".into()),
            }
            let old = self.snap.clone();
            self.check_state(w, o, ev, &old, 0);
            return;
        }
        self.n_exec += 1;
        let before = self.m.clone();
        let verdict = self.m.call(ev);
        if verdict.is_err() {
            self.m = before.clone();
        }
        let old = self.snap.clone();
        let mut eff = Effect::default();
        match (&verdict, ev.ok) {
            (Err(y), true) => {
                let tags: &[&'static str] = match y {
                    Why::NotOwner | Why::NotCallback | Why::Reinit | Why::BadFee => &["C06"],
                    Why::Locked => &["C04", "C03"],
                    Why::Amount => &["C03", "C02"],
                    _ => &["C03", "C06"],
                };
                o.fail(tags, &format!("accepted_{:?}", y), format!("{} by {} with {} accepted, should be refused ({:?})", m, who, args_json(&ev.receipt), y));
            }
            (Ok(_), false) => {
                self.m = before.clone();
                let fine = env_failure(ev) && who != P;
                let tags: &[&'static str] = match &m[..] {
                    "withdraw" | "withdraw_all" if verdict.as_ref().map_or(false, |e| e.changed_epoch) => &["C04", "C03", "C05"],
                    "withdraw" | "withdraw_all" => &["C04", "C03"],
                    "unstake" | "unstake_all" => &["C03", "C05", "C02"],
                    "deposit" | "deposit_and_stake" | "stake" | "stake_all" => &["C03", "C05"],
                    "ping" => &["C05", "C07"],
                    "on_stake_action" => &["C07"],
                    "pause_staking" | "resume_staking" | "update_staking_key" => &["C07", "C06"],
                    _ => &["C06"],
                };
                o.check(fine, tags, &format!("refused_{}", m), || {
                    format!("{} by {} with {} in epoch {} failed: {} ({:?})", m, who, args_json(&ev.receipt), ev.epoch, ev.err, ev.fail)
                });
                if ev.fail == Some(Fail::Gas) {
                    w.stats.fault("out_of_gas_call");
                }
            }
            (Err(_), false) => o.count("refused_calls"),
            (Ok(_), true) => eff = verdict.unwrap(),
        }
        if !ev.ok {
            return;
        }
        o.count(&format!("ok_{}", m));
        if m.starts_with("unstake") {
            self.unstaked_at.insert(who.clone(), ev.epoch);
        }
        if m.starts_with("withdraw") {
            let at = self.unstaked_at.get(&who).cloned();
            o.check(at.map_or(true, |e| ev.epoch >= e + LOCK), &["C04"], "withdrawn_early", || {
                format!("{} withdrew in epoch {} after unstaking in epoch {:?}", who, ev.epoch, at)
            });
        }
        // What the call sent out.
        let mut stakes = vec![];
        let mut pays = vec![];
        let mut votes = vec![];
        let mut other = vec![];
        for r in ev.sent() {
            for a in r.actions() {
                match a {
                    Action::Stake { stake, pk } if r.receiver == P => stakes.push((*stake, pk.clone())),
                    Action::Transfer(d) => pays.push((r.receiver.clone(), *d)),
                    Action::Call { method, args, deposit: 0, .. } if m == "vote" => {
                        votes.push((r.receiver.clone(), method.clone(), args.clone()))
                    }
                    Action::Call { deposit: 0, .. } if r.receiver == P => {}
                    a => other.push(format!("{} {}", r.receiver, a.name())),
                }
            }
        }
        o.check(other.is_empty(), &["C06", "C01"], "unexpected_output", || format!("{} by {} issued {:?}", m, who, other));
        if let Some((v, b)) = &eff.vote {
            let okv = votes.len() == 1 && votes[0].0 == *v && votes[0].1 == "vote"
                && serde_json::from_slice::<Value>(&votes[0].2).ok() == Some(json!({"is_vote": b}));
            o.check(okv, &["C06"], "vote_forwarding", || format!("vote {} {} issued {:?}", v, b, votes));
        } else {
            o.check(votes.is_empty(), &["C06"], "vote_unasked", || format!("{} issued {:?}", m, votes));
        }
        if eff.changed_epoch {
            o.count("distribution_turn");
        }
        if eff.reward > 0 {
            o.count("distributions");
        }
        let h = hash_storage(w, P);
        if h != self.storage {
            self.storage = h;
            match Pool::read_snap(w) {
                Some(x) => self.snap = x,
                None => {
                    o.fail(&["C08", "C03"], "views_fail", format!("balance views fail after {} by {}", m, who));
                    return;
                }
            }
        }
        let exp_pay = if eff.pay > 0 { vec![(who.clone(), eff.pay)] } else { vec![] };
        let debit = old.acc.get(&who).map_or(0, |x| x.0).saturating_sub(self.snap.acc.get(&who).map_or(0, |x| x.0));
        let paid: u128 = pays.iter().map(|p| p.1).sum();
        let pay_tags: &[&'static str] = if paid > debit {
            &["C03", "C06", "C01", "C02"]
        } else if paid < debit {
            &["C03", "C02", "C04"]
        } else {
            &["C03", "C06"]
        };
        o.check(pays == exp_pay, pay_tags, "payout", || format!("{} by {} paid {:?}, expected {:?}", m, who, pays, exp_pay));
        let key = self.m.key.clone();
        let exp_stake = if eff.stake_zero {
            vec![(0, key)]
        } else if eff.restake {
            vec![(self.snap.t, key)]
        } else {
            vec![]
        };
        o.check(stakes == exp_stake, &["C07"], "stake_proposal", || {
            format!("{} by {} proposed stakes {:?}, expected {:?}", m, who,
                stakes.iter().map(|x| (x.0, pk_text(&x.1))).collect::<Vec<_>>(), exp_stake.iter().map(|x| (x.0, pk_text(&x.1))).collect::<Vec<_>>())
        });
        self.check_state(w, o, ev, &old, eff.reward);
        if before.fee != self.m.fee || before.key != self.m.key || before.paused != self.m.paused || self.n_exec % 8 == 0 {
            self.check_config(w, o);
        }
        if (self.snap.acc.len() != old.acc.len() || self.n_exec % 16 == 0) && !self.filling {
            self.check_listing(w, o);
        }
        if m.starts_with("unstake") || m.starts_with("withdraw") || self.n_exec % 16 == 0 {
            self.check_availability(w, o);
        }
    }

    fn after(&mut self, w: &mut World, o: &mut Out, step: &Step) {
        if let Step::Epoch { .. } = step {
            self.check_availability(w, o);
        }
    }

    fn close(d: &mut Driver<Self>) {
        d.apply(&Step::MinStake { v: 0 });
        d.apply(&Step::Drain);
        for id in d.f.ids.clone() {
            if !d.w.exists(&id) {
                d.apply(&Step::Create { account: id, amount: 1_000_000 * NEAR });
            }
        }
        // Whoever has only unstaked tokens can take them after the lock; others unstake first.
        let ids = d.f.ids.clone();
        for id in &ids {
            let (_, stk) = d.f.snap.acc.get(id).cloned().unwrap_or((0, 0));
            if stk > 0 {
                d.call(id, P, "unstake_all", json!({}), 0);
                let (_, left) = d.f.snap.acc.get(id).cloned().unwrap_or((0, 0));
                d.o.check(left == 0, &["C04", "C03"], "unstake_all_left", || format!("{} still has {} staked", id, left));
            }
        }
        for _ in 0..LOCK {
            d.apply(&epoch_step(vec![], vec![]));
        }
        for id in &ids {
            let (un, _) = d.f.snap.acc.get(id).cloned().unwrap_or((0, 0));
            if un > 0 {
                let before = d.w.amount(id);
                d.call(id, P, "withdraw_all", json!({}), 0);
                let (left, _) = d.f.snap.acc.get(id).cloned().unwrap_or((0, 0));
                let after = d.w.amount(id);
                d.o.check(left == 0 && after + NEAR / 10 >= before + un, &["C04"], "not_withdrawable", || {
                    format!("{} had {} unstaked four epochs after the last unstake; after withdraw_all {} left, received {}", id, un, left, after.saturating_sub(before))
                });
            }
        }
        // Stake converges.
        if d.f.m.paused {
            let lo = d.w.accounts[P].locked;
            d.o.check(lo == 0, &["C07"], "paused_stake", || format!("paused pool still has {} locked after {} epochs", lo, LOCK));
            d.call("owner", P, "resume_staking", json!({}), 0);
        }
        for _ in 0..LOCK {
            d.apply(&epoch_step(vec![], vec![]));
            d.call("outsider", P, "ping", json!({}), 0);
        }
        let (lo, t) = (d.w.accounts[P].locked, d.f.snap.t);
        d.o.check(lo == t, &["C07"], "stake_not_restored", || format!("{} locked, total staked {} long after faults stopped", lo, t));
        let Driver { w, f, o, .. } = d;
        f.check_config(w, o);
        f.check_listing(w, o);
        f.check_availability(w, o);
    }
}
