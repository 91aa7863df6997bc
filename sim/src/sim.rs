//! Steps, the driver that applies them, violations, and the seeded scheduler's common choices.
use crate::util::{hash64, mix, pk_of, Rng};
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashSet};

/// One decision of the scheduler: client transaction, delivery, time, epoch or fault.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(tag = "do", rename_all = "snake_case")]
pub enum Step {
    /// Function call transaction. `key`: name whose key signs (default: the signer's own).
    Tx {
        from: String,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        key: Option<String>,
        to: String,
        method: String,
        args: Value,
        #[serde(default, with = "dec")]
        deposit: u128,
        gas: u64,
    },
    /// Plain token transfer transaction.
    Send {
        from: String,
        to: String,
        #[serde(with = "dec")]
        amount: u128,
    },
    /// Account deletion transaction by its owner.
    Delete { account: String, beneficiary: String },
    /// An account comes (back) into existence.
    Create {
        account: String,
        #[serde(with = "dec")]
        amount: u128,
    },
    /// The account's owner deploys another code.
    Code { account: String, code: String },
    /// The network delivers the next receipt of the channel from -> to.
    Deliver { from: String, to: String },
    /// Deliver everything in flight, oldest receipt first.
    Drain,
    /// The clock jumps.
    Time { ns: u64 },
    /// Epoch boundary: validator rewards, validators kicked out.
    Epoch { rewards: BTreeMap<String, String>, kick: BTreeSet<String> },
    /// The next `n` calls of `method` on `to` fail in the callee.
    Fail { to: String, method: String, n: u32 },
    /// The external contract `to` answers calls of `method` ("*": any) this way from now on.
    Stub { to: String, method: String, reply: Reply },
    /// A validator proposes another stake.
    Propose {
        account: String,
        #[serde(with = "dec")]
        v: u128,
    },
    /// Minimum stake the network accepts changes.
    MinStake {
        #[serde(with = "dec")]
        v: u128,
    },
}
pub mod dec {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &u128, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.to_string())
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<u128, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map_err(serde::de::Error::custom)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub props: Vec<String>,
    /// Stable name of the oracle that fired (used when minimising).
    pub kind: String,
    pub msg: String,
    pub step: usize,
}

impl Violation {
    /// Is it a violation of this property? (`SIM_ANY`: any violation is wanted.)
    pub fn about(&self, prop: &str) -> bool {
        self.props.iter().any(|p| p == prop) || std::env::var_os("SIM_ANY").is_some()
    }
}
/// What a run produced.
#[derive(Default)]
pub struct Out {
    pub violations: Vec<Violation>,
    pub steps: Vec<Step>,
    pub states: HashSet<u64>,
    pub sched: u64,
    pub counters: BTreeMap<String, u64>,
    pub digest: u64,
    pub checks: u64,
    pub known: BTreeMap<String, u64>,
    pub closing: u64,
}
impl Out {
    pub fn fail(&mut self, props: &[&'static str], kind: &str, msg: String) {
        if self.violations.iter().any(|v| v.kind == kind && v.props.iter().eq(props.iter())) {
            return;
        }
        self.violations.push(Violation {
            props: props.iter().map(|p| p.to_string()).collect(),
            kind: kind.to_string(),
            msg,
            step: self.steps.len(),
        });
    }
    /// Counts an evaluated oracle and records a violation when it does not hold.
    pub fn check<F: FnOnce() -> String>(
        &mut self,
        cond: bool,
        props: &[&'static str],
        kind: &str,
        msg: F,
    ) {
        self.checks += 1;
        if !cond {
            let m = msg();
            self.fail(props, kind, m);
        }
    }
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_default() += 1;
    }
}

pub trait Family: Send + Sized {
    /// Draws the configuration of a run.
    fn config(rng: &mut Rng, prop: &str) -> Value;
    /// Builds the initial world of a configuration.
    fn setup(env: &crate::engine::Env, prop: &str, cfg: &Value) -> Driver<Self>;
    /// Chooses the next step of the seeded search.
    fn next(&mut self, w: &mut World, rng: &mut Rng, o: &mut Out) -> Step;
    /// Called for every receipt that executed.
    fn exec(&mut self, w: &mut World, o: &mut Out, ev: &Exec);
    /// Called after every step.
    fn after(&mut self, w: &mut World, o: &mut Out, step: &Step);
    /// Faults have stopped: drive the system to rest and check bounded liveness. Must be a
    /// function of the state only.
    fn close(d: &mut Driver<Self>)
    where
        Self: Sized;
    /// A programmable contract through which transactions are sometimes relayed: the signer is then not the
    /// account that makes the call.
    fn relay(&self) -> Option<&'static str> {
        None
    }
    /// Contracts whose state is hashed for the coverage measure.
    fn watched(&self) -> Vec<String>;
}

pub struct Driver<F: Family> {
    pub w: World,
    pub f: F,
    pub o: Out,
    pub closing: bool,
    /// A run ends at the first violation of this property.
    pub stop_on: &'static str,
}

impl<F: Family> Driver<F> {
    pub fn new(w: World, f: F, prop: &str) -> Self {
        Driver { w, f, o: Out::default(), closing: false, stop_on: crate::fam::intern(prop) }
    }
    fn on(&mut self, ev: Exec) {
        let h = hash64(
            format!(
                "{}>{}:{}:{}",
                ev.receipt.predecessor,
                ev.receipt.receiver,
                ev.receipt.method().unwrap_or("-"),
                ev.ok
            )
            .as_bytes(),
        );
        self.o.sched = mix(self.o.sched ^ h);
        self.o.digest = mix(self.o.digest ^ h ^ hash64(format!("{:?}{:?}{:?}", ev.post, ev.ret, ev.err).as_bytes()));
        if std::env::var_os("SIM_TRACE").is_some() {
            eprintln!(
                "    e{} {} -> {} {:?} {} {} {}",
                ev.epoch,
                ev.receipt.predecessor,
                ev.receipt.receiver,
                ev.receipt.actions().iter().map(|a| a.name()).collect::<Vec<_>>(),
                if ev.ok { "ok" } else { "FAILED" },
                ev.err,
                match &ev.ret { Ret::Value(v) => String::from_utf8_lossy(v).to_string(), r => format!("{:?}", r) }
            );
        }
        self.f.exec(&mut self.w, &mut self.o, &ev);
    }
    pub fn deliver(&mut self, from: &str, to: &str) {
        if let Some(ev) = self.w.deliver(from, to) {
            self.on(ev);
        }
    }
    /// Oldest receipt first.
    pub fn drain(&mut self) {
        let mut guard = 0;
        while let Some(k) =
            self.w.queues.iter().min_by_key(|(_, q)| q.front().map(|r| r.id)).map(|(k, _)| k.clone())
        {
            self.deliver(&k.0, &k.1);
            guard += 1;
            assert!(guard < 100_000, "drain does not terminate");
        }
    }
    pub fn epoch(&mut self, rewards: &BTreeMap<String, u128>, kick: &BTreeSet<String>) {
        // No transaction spans two epoch boundaries: drain the stale ones first.
        let mut guard = 0;
        while !self.w.epoch_ready() {
            let ks = self.w.stale_channels();
            match ks.first() {
                Some(k) => self.deliver(&k.0.clone(), &k.1.clone()),
                None => break,
            }
            guard += 1;
            assert!(guard < 100_000, "stale receipts do not drain");
        }
        self.w.end_epoch(rewards, kick);
    }
    /// Applies one step; steps that make no sense in the current state are no-ops.
    pub fn apply(&mut self, s: &Step) {
        if std::env::var_os("SIM_TRACE").is_some() {
            eprintln!("{} {}", self.o.steps.len(), serde_json::to_string(s).unwrap());
        }
        self.o.digest = mix(self.o.digest ^ hash64(serde_json::to_string(s).unwrap().as_bytes()));
        match s {
            Step::Tx { from, key, to, method, args, deposit, gas } => {
                let pk = pk_of(key.as_ref().unwrap_or(from));
                let a = Action::Call {
                    method: method.clone(),
                    args: match args {
                        Value::Null => vec![],
                        v => serde_json::to_vec(v).unwrap(),
                    },
                    gas: *gas,
                    deposit: *deposit,
                };
                if self.w.submit(from, &pk, to, vec![a]).is_err() {
                    self.o.count("tx_rejected");
                }
            }
            Step::Send { from, to, amount } => {
                let _ = self.w.submit(from, &pk_of(from), to, vec![Action::Transfer(*amount)]);
            }
            Step::Delete { account, beneficiary } => {
                let a = Action::DeleteAccount { beneficiary: beneficiary.clone() };
                if self.w.submit(account, &pk_of(account), account, vec![a]).is_ok() {
                    self.w.stats.fault("account_deletion");
                }
            }
            Step::Create { account, amount } => {
                if !self.w.exists(account) {
                    self.w.create(account, *amount);
                    self.w.stats.fault("account_recreation");
                }
            }
            Step::Code { account, code } => {
                let c = self.w.codes.get(code).cloned();
                if let Some(c) = c {
                    if self.w.submit(account, &pk_of(account), account, vec![Action::Deploy(std::sync::Arc::new(c.bytes.clone()))]).is_ok() {
                        self.w.stats.fault("code_replacement");
                    }
                }
            }
            Step::Deliver { from, to } => self.deliver(from, to),
            Step::Drain => self.drain(),
            Step::Time { ns } => {
                self.w.advance(*ns);
                self.w.height += 1;
                self.w.stats.fault("clock_jump");
            }
            Step::Epoch { rewards, kick } => {
                let r = rewards.iter().map(|(k, v)| (k.clone(), v.parse().unwrap_or(0))).collect();
                if !self.w.quiescent() {
                    self.w.stats.fault("epoch_switch_with_receipts_in_flight");
                }
                if !kick.is_empty() {
                    self.w.stats.fault("validator_kickout");
                }
                self.epoch(&r, kick)
            }
            Step::Fail { to, method, n } => {
                self.w.forced.insert((to.clone(), method.clone()), *n);
            }
            Step::Stub { to, method, reply } => {
                self.w.stubs.insert((to.clone(), method.clone()), reply.clone());
            }
            Step::Propose { account, v } => {
                self.w.val.proposals.insert(account.clone(), *v);
                self.w.stats.fault("stake_change");
            }
            Step::MinStake { v } => {
                self.w.val.min_stake = *v;
                self.w.stats.fault("stake_threshold_change");
            }
        }
        if self.closing {
            self.o.closing += 1;
        }
        self.f.after(&mut self.w, &mut self.o, s);
        if let Err(e) = self.w.check_conservation() {
            panic!("{}", e);
        }
        let mut h = 0u64;
        for c in self.f.watched() {
            if let Some(a) = self.w.accounts.get(&c) {
                for (k, v) in &a.storage {
                    h = mix(h ^ hash64(k) ^ hash64(v).rotate_left(1));
                }
            }
        }
        self.o.states.insert(h);
    }
    pub fn record(&mut self, s: Step) {
        self.o.steps.push(s.clone());
        self.apply(&s);
    }
    pub fn run(&mut self, rng: &mut Rng, n: usize) {
        for _ in 0..n {
            let s = {
                let Driver { w, f, o, .. } = self;
                let s = f.next(w, rng, o);
                match (f.relay(), s) {
                    (Some(p), Step::Tx { from, key: None, to, method, args, deposit, gas })
                        if to != p && from != p && w.exists(&from) && rng.chance(1, 25) =>
                    {
                        o.count("relayed_call");
                        let call = (to, method, args, deposit.to_string(), gas.min(200 * TGAS));
                        crate::fam::common::script(&from, p, vec![call], false)
                    }
                    (_, s) => s,
                }
            };
            self.record(s);
            if self.o.violations.iter().any(|v| v.about(self.stop_on)) {
                return;
            }
        }
        self.finish();
    }
    pub fn replay(&mut self, steps: &[Step]) {
        for s in steps {
            self.record(s.clone());
            if self.o.violations.iter().any(|v| v.about(self.stop_on)) {
                return;
            }
        }
        self.finish();
    }
    fn finish(&mut self) {
        self.closing = true;
        self.w.forced.clear();
        self.w.stubs.retain(|_, r| !r.once);
        F::close(self);
    }
    /// Used while closing: one transaction, delivered to completion.
    pub fn call(&mut self, from: &str, to: &str, method: &str, args: Value, deposit: u128) {
        self.apply(&Step::Tx {
            from: from.into(),
            key: None,
            to: to.into(),
            method: method.into(),
            args,
            deposit,
            gas: 300 * TGAS,
        });
        self.apply(&Step::Drain);
    }
}

/// A random channel with something to deliver.
pub fn pick_channel(w: &World, rng: &mut Rng) -> Option<Step> {
    if w.queues.is_empty() {
        return None;
    }
    let i = rng.below(w.queues.len() as u64) as usize;
    let k = w.queues.keys().nth(i).unwrap();
    Some(Step::Deliver { from: k.0.clone(), to: k.1.clone() })
}

pub fn vjson<T: Into<Vec<u8>>>(r: Result<T, String>) -> Option<Value> {
    r.ok().and_then(|b| serde_json::from_slice(&b.into()).ok())
}
pub fn as_u128(v: &Value) -> Option<u128> {
    match v {
        Value::String(s) => s.parse().ok(),
        Value::Number(n) => n.as_u64().map(|x| x as u128),
        _ => None,
    }
}
impl World {
    pub fn vj(&mut self, id: &str, method: &str, args: Value) -> Option<Value> {
        let b = serde_json::to_vec(&args).unwrap();
        vjson(self.view(id, method, &b))
    }
    pub fn vu(&mut self, id: &str, method: &str, args: Value) -> Option<u128> {
        self.vj(id, method, args).as_ref().and_then(as_u128)
    }
}
