//! The simulated systems ("families"), one per group of properties.
use crate::engine::{replay_family, run_family, Env, RunRes};
use crate::sim::*;
use serde_json::Value;

pub mod common;
pub mod create;
pub mod factory;
pub mod init;
pub mod lockup;
pub mod msig;
pub mod pool;
pub mod sched;
pub mod statetool;
pub mod system;
pub mod voting;
pub mod wnear;

pub struct Spec {
    pub family: &'static str,
    pub contracts: &'static str,
    /// Runs of the quick tier, and how many times more the thorough tier does.
    pub runs: u64,
    pub thorough: u64,
    pub run: fn(&Env, &str, u64) -> RunRes,
    pub replay: fn(&Env, &str, &Value, &[Step]) -> RunRes,
    pub real: &'static str,
    pub stubs: &'static str,
    pub assumptions: &'static [&'static str],
}

const NET: &str = "simulated network (accounts, receipts, promises, refunds, gas prices, storage staking, epochs, validator selection)";
const NETX: &str = "simulated network (accounts, receipts, promises, refunds, gas prices, storage staking, epochs); external contracts are programmable stubs that answer, fail, or call back as the seeded scheduler decides";
const ASSUME: &[&str] = &[
    "receipts are delivered exactly once, in order per (sender, receiver) pair, as the NEAR protocol guarantees",
    "no receipt chain of one transaction spans two epoch boundaries",
    "sampled executions: quiet runs are evidence, not proof",
];

pub fn spec_of(prop: &str) -> Option<Spec> {
    Some(match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" => Spec {
            family: "pool",
            contracts: "staking-pool",
            runs: 1600,
            thorough: 20,
            run: |e, p, s| run_family::<pool::Pool>(e, p, s, (40, 140)),
            replay: replay_family::<pool::Pool>,
            real: "staking-pool contract wasm built from the repository, NEAR VM (near-vm-runner/near-vm-logic, wasmer) with gas metering",
            stubs: NET,
            assumptions: ASSUME,
        },
        "C10" | "C11" => Spec {
            family: "factory",
            contracts: "staking-pool staking-pool-factory whitelist",
            runs: 1500,
            thorough: 40,
            run: |e, p, s| run_family::<factory::Factory>(e, p, s, (20, 90)),
            replay: replay_family::<factory::Factory>,
            real: "staking-pool-factory, whitelist and (embedded by the factory) staking-pool contract wasm built from the repository, NEAR VM",
            stubs: NET,
            assumptions: ASSUME,
        },
        "C60" | "C61" | "C62" => Spec {
            family: "wnear",
            contracts: "w-near",
            runs: 2000,
            thorough: 40,
            run: |e, p, s| run_family::<wnear::Wnear>(e, p, s, (30, 130)),
            replay: replay_family::<wnear::Wnear>,
            real: "w-near contract wasm built from the repository (with the fungible token library it uses), NEAR VM",
            stubs: NETX,
            assumptions: ASSUME,
        },
        "C63" => Spec {
            family: "wnear",
            contracts: "w-near legacy-w-near",
            runs: 2000,
            thorough: 40,
            run: |e, p, s| run_family::<wnear::Wnear>(e, p, s, (30, 130)),
            replay: replay_family::<wnear::Wnear>,
            real: "w-near contract wasm built from the repository (with the fungible token library it uses), the old release's wasm as the repository keeps it, NEAR VM",
            stubs: NETX,
            assumptions: ASSUME,
        },
        "C50" | "C51" | "C52" => Spec {
            family: "multisig2",
            contracts: "multisig2",
            runs: 1500,
            thorough: 40,
            run: |e, p, s| run_family::<msig::Msig>(e, p, s, (30, 130)),
            replay: replay_family::<msig::Msig>,
            real: "multisig2 contract wasm built from the repository, NEAR VM, access-key permissions of the simulated network",
            stubs: NETX,
            assumptions: ASSUME,
        },
        "C53" | "C54" => Spec {
            family: "multisig",
            contracts: "multisig",
            runs: 1500,
            thorough: 40,
            run: |e, p, s| run_family::<msig::Msig>(e, p, s, (30, 130)),
            replay: replay_family::<msig::Msig>,
            real: "multisig contract wasm built from the repository, NEAR VM, access-key permissions of the simulated network",
            stubs: NETX,
            assumptions: ASSUME,
        },
        "C20" | "C21" | "C22" | "C23" | "C24" | "C25" | "C26" | "C27" | "C28" => Spec {
            family: "lockup",
            contracts: "lockup staking-pool whitelist",
            runs: 2000,
            thorough: 40,
            run: |e, p, s| run_family::<lockup::Lockup>(e, p, s, (30, 120)),
            replay: replay_family::<lockup::Lockup>,
            real: "lockup, staking-pool and whitelist contract wasm built from the repository, NEAR VM",
            stubs: NETX,
            assumptions: ASSUME,
        },
        "C30" => Spec {
            family: "lockupfactory",
            contracts: "lockup lockup-factory",
            runs: 1500,
            thorough: 40,
            run: |e, p, s| run_family::<create::Create>(e, p, s, (20, 80)),
            replay: replay_family::<create::Create>,
            real: "lockup-factory and (embedded by the factory) lockup contract wasm built from the repository, NEAR VM",
            stubs: NETX,
            assumptions: ASSUME,
        },
        "C55" => Spec {
            family: "multisigfactory",
            contracts: "multisig2 multisig-factory",
            runs: 1500,
            thorough: 40,
            run: |e, p, s| run_family::<create::Create>(e, p, s, (20, 80)),
            replay: replay_family::<create::Create>,
            real: "multisig-factory and (embedded by the factory) multisig2 contract wasm built from the repository, NEAR VM",
            stubs: NETX,
            assumptions: ASSUME,
        },
        "C40" => Spec {
            family: "voting",
            contracts: "voting",
            runs: 4000,
            thorough: 40,
            run: |e, p, s| run_family::<voting::Voting>(e, p, s, (20, 120)),
            replay: replay_family::<voting::Voting>,
            real: "voting contract wasm built from the repository, NEAR VM",
            stubs: NET,
            assumptions: ASSUME,
        },
        "C41" => Spec {
            family: "system",
            contracts: "voting whitelist staking-pool staking-pool-factory lockup",
            runs: 1500,
            thorough: 40,
            run: |e, p, s| run_family::<system::System>(e, p, s, (30, 130)),
            replay: replay_family::<system::System>,
            real: "staking-pool-factory, (embedded by it) staking-pool, whitelist, voting and lockup contract wasm built from the repository, NEAR VM",
            stubs: NET,
            assumptions: ASSUME,
        },
        "C70" => Spec {
            family: "statetool",
            contracts: "state-manipulation w-near",
            runs: 8000,
            thorough: 40,
            run: |e, p, s| run_family::<statetool::StateTool>(e, p, s, (20, 80)),
            replay: replay_family::<statetool::StateTool>,
            real: "state-manipulation wasm (its three variants) built from the repository over state left by w-near, NEAR VM with gas metering",
            stubs: NET,
            assumptions: ASSUME,
        },
        "C71" => Spec {
            family: "init",
            contracts: "voting whitelist staking-pool staking-pool-factory lockup-factory multisig multisig2 lockup w-near",
            runs: 16000,
            thorough: 40,
            run: |e, p, s| run_family::<init::Init>(e, p, s, (10, 50)),
            replay: replay_family::<init::Init>,
            real: "the wasm of the nine contracts with an initialisation, built from the repository, NEAR VM with gas metering",
            stubs: NET,
            assumptions: ASSUME,
        },
        _ => return None,
    })
}

pub fn intern(p: &str) -> &'static str {
    Box::leak(p.to_string().into_boxed_str())
}
