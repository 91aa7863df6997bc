//! The documented lockup, release and vesting schedules, in exact arithmetic.
use super::common::*;
use crate::util::mul_div;
use serde_json::{json, Value};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Vs {
    pub start: u64,
    pub cliff: u64,
    pub end: u64,
}
impl Vs {
    pub fn json(&self) -> Value {
        json!({"start_timestamp": self.start.to_string(), "cliff_timestamp": self.cliff.to_string(), "end_timestamp": self.end.to_string()})
    }
    pub fn of(v: &Value) -> Option<Vs> {
        let f = |k: &str| u(&v[k]).map(|x| x as u64);
        Some(Vs { start: f("start_timestamp")?, cliff: f("cliff_timestamp")?, end: f("end_timestamp")? })
    }
    pub fn valid(&self) -> bool {
        self.start <= self.cliff && self.cliff <= self.end && self.start < self.end
    }
    pub fn unvested(&self, amount: u128, t: u64) -> u128 {
        if t < self.cliff {
            amount
        } else if t >= self.end {
            0
        } else {
            mul_div(amount, (self.end - t) as u128, (self.end - self.start) as u128).unwrap()
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Vest {
    None,
    Hash,
    Plain(Vs),
    /// terminated: unvested tokens still to be taken out
    Term(u128),
}
#[derive(Clone, Debug)]
pub struct Sched {
    pub amount: u128,
    pub withdrawn: u128,
    pub lockup_duration: u64,
    pub lockup_timestamp: Option<u64>,
    pub release: Option<u64>,
    /// when transfers were enabled
    pub transfers: Option<u64>,
    pub vest: Vest,
}
impl Sched {
    pub fn unlock(&self) -> Option<u64> {
        Some(self.transfers?.saturating_add(self.lockup_duration).max(self.lockup_timestamp.unwrap_or(0)))
    }
    pub fn unreleased(&self, t: u64) -> u128 {
        match self.unlock() {
            Some(l) if l <= t => match self.release {
                Some(d) if t < l.saturating_add(d) => {
                    // linear from the unlocking, over the whole duration
                    mul_div(self.amount, (l.saturating_add(d) - t) as u128, d as u128).unwrap()
                }
                _ => 0,
            },
            _ => self.amount,
        }
    }
    pub fn locked(&self, t: u64) -> u128 {
        match self.unlock() {
            Some(l) if l <= t => {
                let unvested = match &self.vest {
                    Vest::Plain(vs) => vs.unvested(self.amount, t),
                    Vest::Term(x) => *x,
                    _ => 0,
                };
                self.unreleased(t).saturating_sub(self.withdrawn).max(unvested)
            }
            _ => self.amount - self.withdrawn,
        }
    }
    /// The instants at which something changes, each with its neighbours.
    pub fn instants(&self, extra: Option<Vs>) -> Vec<u64> {
        let mut b = vec![];
        if let Some(l) = self.unlock() {
            b.push(l);
            if let Some(d) = self.release {
                b.push(l.saturating_add(d));
                b.push(l.saturating_add(d / 3));
            }
        }
        b.extend(self.lockup_timestamp);
        let vs = match &self.vest {
            Vest::Plain(v) => Some(*v),
            _ => extra,
        };
        if let Some(v) = vs {
            b.extend(&[v.start, v.cliff, v.end, v.cliff / 2 + v.end / 2]);
        }
        let mut o = vec![];
        for x in b {
            o.extend(&[x.saturating_sub(1), x, x.saturating_add(1)]);
        }
        o.sort();
        o.dedup();
        o
    }
}
