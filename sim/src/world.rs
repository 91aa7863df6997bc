//! The simulated NEAR network: accounts, receipts, promises, refunds, gas accounting, epochs and
//! staking.  Contracts are the real wasm built from the repository, run by the real NEAR VM
//! (near-vm-runner / near-vm-logic); everything around the VM is this deterministic simulation.
//! Nothing in here draws randomness or reads a clock: every choice arrives as a step.
use near_primitives::config::VMConfig;
use near_primitives::runtime::fees::RuntimeFeesConfig;
use near_primitives::types::CompiledContractCache;
use near_vm_errors::{FunctionCallError, HostError, VMError, VMLogicError};
use near_vm_logic::types::{PromiseResult, ReturnData};
use near_vm_logic::{External, VMContext, VMKind, ValuePtr};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::{Arc, Mutex};

pub type Balance = u128;
pub type Gas = u64;
pub const NEAR: u128 = 1_000_000_000_000_000_000_000_000;
pub const TGAS: u64 = 1_000_000_000_000;
pub const PROTOCOL: u32 = 42;

pub struct Code {
    pub hash: Vec<u8>,
    pub bytes: Vec<u8>,
}
impl Code {
    pub fn new(bytes: Vec<u8>) -> Arc<Code> {
        Arc::new(Code { hash: crate::util::sha256(&bytes), bytes })
    }
}

/// Serialised compiled modules, shared by all simulated worlds of this process.
#[derive(Default)]
pub struct ModCache(Mutex<BTreeMap<Vec<u8>, Vec<u8>>>);
impl CompiledContractCache for ModCache {
    fn put(&self, k: &[u8], v: &[u8]) -> Result<(), std::io::Error> {
        self.0.lock().unwrap().insert(k.to_vec(), v.to_vec());
        Ok(())
    }
    fn get(&self, k: &[u8]) -> Result<Option<Vec<u8>>, std::io::Error> {
        Ok(self.0.lock().unwrap().get(k).cloned())
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Perm {
    Full,
    Call { allowance: Option<u128>, receiver: String, methods: Vec<String> },
}

pub type Storage = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Clone)]
pub struct Account {
    pub amount: Balance,
    pub locked: Balance,
    pub usage: u64,
    pub code: Option<Arc<Code>>,
    pub keys: BTreeMap<Vec<u8>, Perm>,
    pub storage: Storage,
}
impl Account {
    fn empty() -> Account {
        Account {
            amount: 0,
            locked: 0,
            usage: 100,
            code: None,
            keys: BTreeMap::new(),
            storage: BTreeMap::new(),
        }
    }
    pub fn total(&self) -> Balance {
        self.amount + self.locked
    }
}

#[derive(Clone, Debug)]
pub enum Action {
    CreateAccount,
    Deploy(Arc<Vec<u8>>),
    Call { method: String, args: Vec<u8>, gas: Gas, deposit: Balance },
    Transfer(Balance),
    Stake { stake: Balance, pk: Vec<u8> },
    AddKey { pk: Vec<u8>, perm: Perm },
    DeleteKey { pk: Vec<u8> },
    DeleteAccount { beneficiary: String },
}
impl Action {
    pub fn deposit(&self) -> Balance {
        match self {
            Action::Call { deposit, .. } => *deposit,
            Action::Transfer(d) => *d,
            _ => 0,
        }
    }
    pub fn gas(&self) -> Gas {
        match self {
            Action::Call { gas, .. } => *gas,
            _ => 0,
        }
    }
    pub fn name(&self) -> String {
        match self {
            Action::CreateAccount => "create_account".into(),
            Action::Deploy(_) => "deploy".into(),
            Action::Call { method, .. } => format!("call:{}", method),
            Action::Transfer(d) => format!("transfer:{}", d),
            Action::Stake { stake, .. } => format!("stake:{}", stake),
            Action::AddKey { .. } => "add_key".into(),
            Action::DeleteKey { .. } => "delete_key".into(),
            Action::DeleteAccount { .. } => "delete_account".into(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct ActionReceipt {
    pub signer: String,
    pub signer_pk: Vec<u8>,
    pub outputs: Vec<(u64, String)>,
    pub inputs: Vec<u64>,
    pub actions: Vec<Action>,
}
#[derive(Clone, Debug)]
pub enum Kind {
    Action(ActionReceipt),
    Data { id: u64, data: Option<Vec<u8>> },
}
#[derive(Clone, Debug)]
pub struct Receipt {
    pub id: u64,
    /// The account whose execution produced it: delivery is FIFO per (origin, receiver).
    pub origin: String,
    pub predecessor: String,
    pub receiver: String,
    /// Number of the transaction this receipt descends from.
    pub root: u64,
    /// Receipt that created this one (0: a transaction).
    pub parent: u64,
    pub kind: Kind,
}
impl Receipt {
    pub fn is_refund(&self) -> bool {
        self.predecessor == "system"
    }
    pub fn actions(&self) -> &[Action] {
        match &self.kind {
            Kind::Action(a) => &a.actions,
            _ => &[],
        }
    }
    pub fn deposit(&self) -> Balance {
        self.actions().iter().map(|a| a.deposit()).sum()
    }
    /// The last function call action's method name, if any.
    pub fn method(&self) -> Option<&str> {
        self.actions().iter().rev().find_map(|a| match a {
            Action::Call { method, .. } => Some(method.as_str()),
            _ => None,
        })
    }
    pub fn is_call_to(&self, to: &str, method: &str) -> bool {
        self.receiver == to && self.method() == Some(method)
    }
    pub fn args(&self) -> &[u8] {
        self.actions()
            .iter()
            .rev()
            .find_map(|a| match a {
                Action::Call { args, .. } => Some(args.as_slice()),
                _ => None,
            })
            .unwrap_or(&[])
    }
    pub fn gas(&self) -> Gas {
        self.actions().iter().map(|a| a.gas()).sum()
    }
    pub fn inputs(&self) -> &[u64] {
        match &self.kind {
            Kind::Action(a) => &a.inputs,
            _ => &[],
        }
    }
    pub fn signer_pk(&self) -> &[u8] {
        match &self.kind {
            Kind::Action(a) => &a.signer_pk,
            _ => &[],
        }
    }
    pub fn signer(&self) -> &str {
        match &self.kind {
            Kind::Action(a) => &a.signer,
            _ => "",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    None,
    Value(Vec<u8>),
    /// Id of the receipt whose result becomes this one's.
    Promise(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fail {
    /// Contract panicked (assert, panic, trap).
    Guest,
    /// Gas attached was not enough (including a promise asking for more than there is).
    Gas,
    /// The contract tried to send more than it has.
    Balance,
    /// Other VM / host error (missing method, no code, ...).
    Vm,
    /// The receipt's account does not exist or an action's precondition failed.
    Action,
    /// The simulator made this call fail (injected fault).
    Injected,
    /// Account could not pay for its storage.
    Storage,
}

/// What happened when one receipt executed.
#[derive(Clone, Debug)]
pub struct Exec {
    pub receipt: Receipt,
    pub results: Vec<PromiseResultC>,
    pub ok: bool,
    pub fail: Option<Fail>,
    pub err: String,
    pub ret: Ret,
    pub logs: Vec<String>,
    pub pre: Option<(Balance, Balance)>,
    pub post: Option<(Balance, Balance)>,
    /// Gas reward credited to the executing contract (part of post).
    pub reward: Balance,
    /// Receipts generated (after id assignment), including refunds and data.
    pub out: Vec<Receipt>,
    pub time: u64,
    pub height: u64,
    pub epoch: u64,
    pub gas_burnt: Gas,
}
#[derive(Clone, Debug, PartialEq)]
pub enum PromiseResultC {
    Ok(Vec<u8>),
    Failed,
}
impl Exec {
    pub fn is_call(&self, receiver: &str, method: &str) -> bool {
        self.receipt.receiver == receiver && self.receipt.method() == Some(method)
    }
    pub fn ret_json(&self) -> Option<serde_json::Value> {
        match &self.ret {
            Ret::Value(v) => serde_json::from_slice(v).ok(),
            _ => None,
        }
    }
    /// Action receipts (not refunds, not data) sent out.
    pub fn sent(&self) -> impl Iterator<Item = &Receipt> {
        self.out
            .iter()
            .filter(|r| !r.is_refund() && if let Kind::Action(_) = r.kind { true } else { false })
    }
}

#[derive(Clone, Default)]
pub struct Validators {
    /// stake in epochs e, e+1, e+2 per account
    pub stakes: BTreeMap<String, [Balance; 3]>,
    pub proposals: BTreeMap<String, Balance>,
    pub min_stake: Balance,
}

#[derive(Clone)]
pub struct Config {
    pub vm: Arc<VMConfig>,
    pub fees: Arc<RuntimeFeesConfig>,
    pub gas_price: Balance,
    pub storage_price: Balance,
}

#[derive(Clone)]
pub struct World {
    pub cfg: Config,
    pub cache: Arc<ModCache>,
    pub height: u64,
    pub time: u64,
    pub epoch: u64,
    pub accounts: BTreeMap<String, Account>,
    pub queues: BTreeMap<(String, String), VecDeque<Receipt>>,
    pub received: BTreeMap<(String, u64), Option<Vec<u8>>>,
    pub postponed: BTreeMap<u64, (Receipt, usize)>,
    pub waiting: BTreeMap<(String, u64), u64>,
    pub val: Validators,
    pub next_id: u64,
    pub next_root: u64,
    /// Epoch (counter of epoch switches) at which each live root transaction was submitted.
    pub root_epoch: BTreeMap<u64, u64>,
    pub in_flight: BTreeMap<u64, usize>,
    /// Injected failures armed: (receiver, method) -> remaining count.
    pub forced: BTreeMap<(String, String), u32>,
    pub burnt: Balance,
    pub minted: Balance,
    pub stats: Stats,
    /// Programmable external contracts (stubs): replies per (account, method or "*").
    pub stubs: BTreeMap<(String, String), Reply>,
    /// Codes that accounts may deploy.
    pub codes: Arc<BTreeMap<String, Arc<Code>>>,
}

/// What a programmable external contract does when called.
#[derive(Clone, Debug, Default, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Reply {
    #[serde(default)]
    pub fail: bool,
    /// Raw return value (JSON text, or garbage).
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub value: Option<String>,
    /// Calls made: (receiver, method, args, deposit, gas).
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub calls: Vec<(String, String, serde_json::Value, String, u64)>,
    /// Return the last call's result instead of `value`.
    #[serde(default)]
    pub chain: bool,
    /// Each call waits for the one before it and gets its result (promise chain).
    #[serde(default, skip_serializing_if = "no")]
    pub then: bool,
    /// The contract's own answer (a decimal amount), scaled by so many thousandths.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub scale: Option<u64>,
    /// For the next call only.
    #[serde(default, skip_serializing_if = "no")]
    pub once: bool,
}
fn no(b: &bool) -> bool {
    !*b
}

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Stats {
    pub execs: u64,
    pub views: u64,
    pub deliveries: u64,
    pub epochs: u64,
    pub faults: BTreeMap<String, u64>,
    pub fails: BTreeMap<String, u64>,
    pub sim_ns: u128,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.execs += o.execs;
        self.views += o.views;
        self.deliveries += o.deliveries;
        self.epochs += o.epochs;
        self.sim_ns += o.sim_ns;
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.fails {
            *self.fails.entry(k.clone()).or_default() += v;
        }
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k.to_string()).or_default() += 1;
    }
}

fn burnt_reward(g: Gas) -> Gas {
    g * 3 / 10
}

struct Ext<'a> {
    base: &'a Storage,
    over: &'a mut BTreeMap<Vec<u8>, Option<Vec<u8>>>,
    receipts: Vec<(String, ActionReceipt)>,
    next_data: &'a mut u64,
    signer: String,
    signer_pk: Vec<u8>,
    val: &'a Validators,
}
struct Val(Vec<u8>);
impl ValuePtr for Val {
    fn len(&self) -> u32 {
        self.0.len() as u32
    }
    fn deref(&self) -> Result<Vec<u8>, VMLogicError> {
        Ok(self.0.clone())
    }
}
type R<T> = Result<T, VMLogicError>;
impl<'a> Ext<'a> {
    fn get(&self, k: &[u8]) -> Option<&Vec<u8>> {
        match self.over.get(k) {
            Some(v) => v.as_ref(),
            None => self.base.get(k),
        }
    }
    fn push(&mut self, i: u64, a: Action) -> R<()> {
        self.receipts[i as usize].1.actions.push(a);
        Ok(())
    }
}
fn utf8(b: Vec<u8>) -> R<String> {
    String::from_utf8(b).map_err(|_| HostError::InvalidMethodName.into())
}
fn check_pk(pk: Vec<u8>) -> R<Vec<u8>> {
    use borsh::BorshDeserialize;
    near_crypto::PublicKey::try_from_slice(&pk).map_err(|_| HostError::InvalidPublicKey)?;
    Ok(pk)
}
impl<'a> External for Ext<'a> {
    fn storage_set(&mut self, k: &[u8], v: &[u8]) -> R<()> {
        self.over.insert(k.to_vec(), Some(v.to_vec()));
        Ok(())
    }
    fn storage_get<'b>(&'b self, k: &[u8]) -> R<Option<Box<dyn ValuePtr + 'b>>> {
        Ok(self.get(k).map(|v| Box::new(Val(v.clone())) as Box<_>))
    }
    fn storage_remove(&mut self, k: &[u8]) -> R<()> {
        self.over.insert(k.to_vec(), None);
        Ok(())
    }
    fn storage_remove_subtree(&mut self, p: &[u8]) -> R<()> {
        let mut ks: BTreeSet<Vec<u8>> =
            self.base.keys().filter(|k| k.starts_with(p)).cloned().collect();
        ks.extend(self.over.keys().filter(|k| k.starts_with(p)).cloned());
        for k in ks {
            self.over.insert(k, None);
        }
        Ok(())
    }
    fn storage_has_key(&mut self, k: &[u8]) -> R<bool> {
        Ok(self.get(k).is_some())
    }
    fn create_receipt(&mut self, deps: Vec<u64>, receiver: String) -> R<u64> {
        let mut inputs = vec![];
        for d in deps {
            let id = *self.next_data;
            *self.next_data += 1;
            self.receipts
                .get_mut(d as usize)
                .ok_or_else(|| HostError::InvalidReceiptIndex { receipt_index: d })?
                .1
                .outputs
                .push((id, receiver.clone()));
            inputs.push(id);
        }
        self.receipts.push((
            receiver,
            ActionReceipt {
                signer: self.signer.clone(),
                signer_pk: self.signer_pk.clone(),
                outputs: vec![],
                inputs,
                actions: vec![],
            },
        ));
        Ok(self.receipts.len() as u64 - 1)
    }
    fn append_action_create_account(&mut self, i: u64) -> R<()> {
        self.push(i, Action::CreateAccount)
    }
    fn append_action_deploy_contract(&mut self, i: u64, code: Vec<u8>) -> R<()> {
        self.push(i, Action::Deploy(Arc::new(code)))
    }
    fn append_action_function_call(
        &mut self,
        i: u64,
        m: Vec<u8>,
        args: Vec<u8>,
        deposit: u128,
        gas: u64,
    ) -> R<()> {
        let method = utf8(m)?;
        self.push(i, Action::Call { method, args, gas, deposit })
    }
    fn append_action_transfer(&mut self, i: u64, d: u128) -> R<()> {
        self.push(i, Action::Transfer(d))
    }
    fn append_action_stake(&mut self, i: u64, stake: u128, pk: Vec<u8>) -> R<()> {
        let pk = check_pk(pk)?;
        self.push(i, Action::Stake { stake, pk })
    }
    fn append_action_add_key_with_full_access(&mut self, i: u64, pk: Vec<u8>, _n: u64) -> R<()> {
        let pk = check_pk(pk)?;
        self.push(i, Action::AddKey { pk, perm: Perm::Full })
    }
    fn append_action_add_key_with_function_call(
        &mut self,
        i: u64,
        pk: Vec<u8>,
        _n: u64,
        allowance: Option<u128>,
        receiver: String,
        methods: Vec<Vec<u8>>,
    ) -> R<()> {
        let pk = check_pk(pk)?;
        let methods = methods.into_iter().map(utf8).collect::<R<Vec<_>>>()?;
        self.push(i, Action::AddKey { pk, perm: Perm::Call { allowance, receiver, methods } })
    }
    fn append_action_delete_key(&mut self, i: u64, pk: Vec<u8>) -> R<()> {
        let pk = check_pk(pk)?;
        self.push(i, Action::DeleteKey { pk })
    }
    fn append_action_delete_account(&mut self, i: u64, beneficiary: String) -> R<()> {
        self.push(i, Action::DeleteAccount { beneficiary })
    }
    fn get_touched_nodes_count(&self) -> u64 {
        0
    }
    fn reset_touched_nodes_counter(&mut self) {}
    fn validator_stake(&self, a: &String) -> R<Option<u128>> {
        Ok(self.val.stakes.get(a).map(|s| s[0]).filter(|s| *s > 0))
    }
    fn validator_total_stake(&self) -> R<u128> {
        Ok(self.val.stakes.values().map(|s| s[0]).sum())
    }
}

fn classify(e: &VMError) -> Fail {
    match e {
        VMError::FunctionCallError(FunctionCallError::HostError(h)) => match h {
            HostError::GasExceeded | HostError::GasLimitExceeded => Fail::Gas,
            HostError::BalanceExceeded => Fail::Balance,
            HostError::GuestPanic { .. } => Fail::Guest,
            _ => Fail::Vm,
        },
        VMError::FunctionCallError(FunctionCallError::WasmTrap(_))
        | VMError::FunctionCallError(FunctionCallError::WasmUnknownError) => Fail::Guest,
        _ => Fail::Vm,
    }
}

pub fn valid_account_id(s: &str) -> bool {
    if s.len() < 2 || s.len() > 64 {
        return false;
    }
    let mut sep = true;
    for c in s.bytes() {
        let cur = match c {
            b'a'..=b'z' | b'0'..=b'9' => false,
            b'-' | b'_' | b'.' => true,
            _ => return false,
        };
        if cur && sep {
            return false;
        }
        sep = cur;
    }
    !sep
}

impl World {
    pub fn new(cache: Arc<ModCache>, gas_price: Balance) -> World {
        let mut vm = VMConfig::default();
        if std::env::var("SIM_COV").is_ok() {
            // room for the log lines that tools/reach.py adds
            vm.limit_config.max_number_logs = u64::MAX;
            vm.limit_config.max_total_log_length = u64::MAX / 2;
            vm.ext_costs.log_base = 0;
            vm.ext_costs.log_byte = 0;
            vm.ext_costs.utf8_decoding_base = 0;
            vm.ext_costs.utf8_decoding_byte = 0;
        }
        World {
            cfg: Config {
                vm: Arc::new(vm),
                fees: Arc::new(RuntimeFeesConfig::default()),
                gas_price,
                storage_price: 1_000_000_000_000_000_000,
            },
            cache,
            height: 10,
            time: 1_600_000_000_000_000_000,
            epoch: 1,
            accounts: BTreeMap::new(),
            queues: BTreeMap::new(),
            received: BTreeMap::new(),
            postponed: BTreeMap::new(),
            waiting: BTreeMap::new(),
            val: Validators::default(),
            next_id: 1,
            next_root: 1,
            root_epoch: BTreeMap::new(),
            in_flight: BTreeMap::new(),
            forced: BTreeMap::new(),
            burnt: 0,
            minted: 0,
            stats: Stats::default(),
            stubs: BTreeMap::new(),
            codes: Default::default(),
        }
    }
    /// `do` executes the reply given as arguments, `ret:TEXT` returns the text, `fail` fails.
    fn reply(&mut self, id: &str, method: &str, args: &[u8]) -> Option<Reply> {
        let k = (id.to_string(), method.to_string());
        if let Some(r) = self.stubs.get(&k).cloned() {
            if r.once {
                self.stubs.remove(&k);
            }
            return Some(r);
        }
        let any = self.stubs.get(&(id.to_string(), "*".to_string()))?;
        Some(match method {
            "do" => serde_json::from_slice(args).unwrap_or_default(),
            "fail" => Reply { fail: true, ..Default::default() },
            m if m.starts_with("ret:") => Reply { value: Some(m[4..].to_string()), ..Default::default() },
            _ => any.clone(),
        })
    }
    /// A contract account without access keys.
    pub fn contract(&mut self, id: &str, amount: Balance, code: &Arc<Code>) {
        self.create(id, amount).keys.clear();
        self.deploy(id, code);
    }

    // ---- set-up helpers -------------------------------------------------------------------
    pub fn create(&mut self, id: &str, amount: Balance) -> &mut Account {
        let mut a = Account::empty();
        a.amount = amount;
        a.keys.insert(crate::util::pk_of(id), Perm::Full);
        self.minted += amount;
        self.accounts.insert(id.to_string(), a);
        self.accounts.get_mut(id).unwrap()
    }
    pub fn deploy(&mut self, id: &str, code: &Arc<Code>) {
        let a = self.accounts.get_mut(id).unwrap();
        a.usage += code.bytes.len() as u64;
        a.code = Some(code.clone());
    }
    pub fn exists(&self, id: &str) -> bool {
        self.accounts.contains_key(id)
    }
    pub fn amount(&self, id: &str) -> Balance {
        self.accounts.get(id).map_or(0, |a| a.amount)
    }
    pub fn total(&self, id: &str) -> Balance {
        self.accounts.get(id).map_or(0, |a| a.total())
    }

    // ---- views ----------------------------------------------------------------------------
    pub fn view(&mut self, id: &str, method: &str, args: &[u8]) -> Result<Vec<u8>, String> {
        self.stats.views += 1;
        let acc = self.accounts.get(id).ok_or("no account")?;
        let code = acc.code.clone().ok_or("no code")?;
        let mut over = BTreeMap::new();
        let mut nd = 0;
        let mut ext = Ext {
            base: &acc.storage,
            over: &mut over,
            receipts: vec![],
            next_data: &mut nd,
            signer: id.into(),
            signer_pk: vec![0; 33],
            val: &self.val,
        };
        let ctx = VMContext {
            current_account_id: id.into(),
            signer_account_id: id.into(),
            signer_account_pk: vec![0; 33],
            predecessor_account_id: id.into(),
            input: args.to_vec(),
            block_index: self.height,
            block_timestamp: self.time,
            epoch_height: self.epoch,
            account_balance: acc.amount,
            account_locked_balance: acc.locked,
            storage_usage: acc.usage,
            attached_deposit: 0,
            prepaid_gas: 200 * TGAS,
            random_seed: vec![0; 32],
            is_view: true,
            output_data_receivers: vec![],
        };
        let (out, err) = near_vm_runner::run_vm(
            code.hash.clone(),
            &code.bytes,
            method,
            &mut ext,
            ctx,
            &self.cfg.vm,
            &self.cfg.fees,
            &[],
            VMKind::Wasmer0,
            PROTOCOL,
            Some(&*self.cache),
        );
        if let Some(o) = &out {
            crate::util::reached(&o.logs);
        }
        match err {
            Some(e) => Err(format!("{}", e)),
            None => Ok(match out.unwrap().return_data {
                ReturnData::Value(v) => v,
                _ => vec![],
            }),
        }
    }

    // ---- transactions ---------------------------------------------------------------------
    pub fn gas_cost(&self, g: Gas) -> Balance {
        self.cfg.gas_price * g as u128
    }
    fn exec_fee(&self, a: &Action, receiver: &str) -> Gas {
        let c = &self.cfg.fees.action_creation_config;
        match a {
            Action::CreateAccount => c.create_account_cost.exec_fee(),
            Action::Deploy(b) => {
                c.deploy_contract_cost.exec_fee()
                    + c.deploy_contract_cost_per_byte.exec_fee() * b.len() as u64
            }
            Action::Call { method, args, .. } => {
                c.function_call_cost.exec_fee()
                    + c.function_call_cost_per_byte.exec_fee() * (method.len() + args.len()) as u64
            }
            Action::Transfer(_) => {
                if implicit(receiver) {
                    c.create_account_cost.exec_fee()
                        + c.add_key_cost.full_access_cost.exec_fee()
                        + c.transfer_cost.exec_fee()
                } else {
                    c.transfer_cost.exec_fee()
                }
            }
            Action::Stake { .. } => c.stake_cost.exec_fee(),
            Action::AddKey { perm, .. } => match perm {
                Perm::Full => c.add_key_cost.full_access_cost.exec_fee(),
                Perm::Call { methods, .. } => {
                    c.add_key_cost.function_call_cost.exec_fee()
                        + c.add_key_cost.function_call_cost_per_byte.exec_fee()
                            * methods.iter().map(|m| m.len() as u64 + 1).sum::<u64>()
                }
            },
            Action::DeleteKey { .. } => c.delete_key_cost.exec_fee(),
            Action::DeleteAccount { .. } => c.delete_account_cost.exec_fee(),
        }
    }
    fn receipt_exec_fee(&self) -> Gas {
        self.cfg.fees.action_receipt_creation_config.exec_fee()
    }

    /// Submits a transaction signed by `pk` of `signer`. Err: rejected, nothing happened.
    pub fn submit(
        &mut self,
        signer: &str,
        pk: &[u8],
        receiver: &str,
        actions: Vec<Action>,
    ) -> Result<u64, String> {
        let acc = self.accounts.get(signer).ok_or("no signer")?;
        let perm = acc.keys.get(pk).ok_or("no such key")?;
        if let Perm::Call { receiver: r, methods, .. } = perm {
            match &actions[..] {
                [Action::Call { method, deposit: 0, .. }]
                    if r == receiver && (methods.is_empty() || methods.contains(method)) => {}
                _ => return Err("key not permitted".into()),
            }
        }
        if !valid_account_id(receiver) {
            return Err("invalid receiver".into());
        }
        let deposit: Balance = actions.iter().map(|a| a.deposit()).sum();
        let gas: Gas = actions.iter().map(|a| a.gas()).sum::<u64>()
            + actions.iter().map(|a| self.exec_fee(a, receiver)).sum::<u64>()
            + self.receipt_exec_fee();
        if actions.iter().map(|a| a.gas()).sum::<u64>()
            > self.cfg.vm.limit_config.max_total_prepaid_gas
        {
            return Err("too much gas".into());
        }
        let cost = deposit.checked_add(self.gas_cost(gas)).ok_or("overflow")?;
        if acc.amount < cost {
            return Err("balance".into());
        }
        self.accounts.get_mut(signer).unwrap().amount -= cost;
        let root = self.next_root;
        self.next_root += 1;
        self.root_epoch.insert(root, self.epoch);
        let id = self.next_id;
        self.next_id += 1;
        let r = Receipt {
            id,
            // A transaction is converted on the signer's shard.
            origin: signer.into(),
            predecessor: signer.into(),
            receiver: receiver.into(),
            root,
            parent: 0,
            kind: Kind::Action(ActionReceipt {
                signer: signer.into(),
                signer_pk: pk.to_vec(),
                outputs: vec![],
                inputs: vec![],
                actions,
            }),
        };
        self.enqueue(r);
        Ok(root)
    }

    fn enqueue(&mut self, r: Receipt) {
        *self.in_flight.entry(r.root).or_default() += 1;
        self.queues
            .entry((r.origin.clone(), r.receiver.clone()))
            .or_default()
            .push_back(r);
    }
    fn settle(&mut self, root: u64) {
        let n = self.in_flight.get_mut(&root).expect("in_flight");
        *n -= 1;
        if *n == 0 {
            self.in_flight.remove(&root);
            self.root_epoch.remove(&root);
        }
    }
    pub fn quiescent(&self) -> bool {
        self.queues.is_empty() && self.postponed.is_empty()
    }

    /// Delivers the next receipt of a channel. None: nothing there, or only data was recorded.
    pub fn deliver(&mut self, from: &str, to: &str) -> Option<Exec> {
        let key = (from.to_string(), to.to_string());
        let q = self.queues.get_mut(&key)?;
        let r = q.pop_front()?;
        if q.is_empty() {
            self.queues.remove(&key);
        }
        self.stats.deliveries += 1;
        self.height += 1;
        self.advance(1_000_000_000);
        match &r.kind {
            Kind::Data { id, data } => {
                let root = r.root;
                self.received.insert((r.receiver.clone(), *id), data.clone());
                let res = if let Some(rid) = self.waiting.remove(&(r.receiver.clone(), *id)) {
                    let e = self.postponed.get_mut(&rid).expect("postponed");
                    e.1 -= 1;
                    if e.1 == 0 {
                        let (r, _) = self.postponed.remove(&rid).unwrap();
                        let root2 = r.root;
                        let x = self.execute(r);
                        self.settle(root2);
                        Some(x)
                    } else {
                        None
                    }
                } else {
                    None
                };
                self.settle(root);
                res
            }
            Kind::Action(a) => {
                let missing: Vec<u64> = a
                    .inputs
                    .iter()
                    .cloned()
                    .filter(|d| !self.received.contains_key(&(r.receiver.clone(), *d)))
                    .collect();
                if missing.is_empty() {
                    let root = r.root;
                    let x = self.execute(r);
                    self.settle(root);
                    Some(x)
                } else {
                    for d in &missing {
                        self.waiting.insert((r.receiver.clone(), *d), r.id);
                    }
                    let n = missing.len();
                    self.postponed.insert(r.id, (r, n));
                    None
                }
            }
        }
    }
    pub fn advance(&mut self, ns: u64) {
        self.time += ns;
        self.stats.sim_ns += ns as u128;
    }

    fn execute(&mut self, r: Receipt) -> Exec {
        self.stats.execs += 1;
        let a = match &r.kind {
            Kind::Action(a) => a.clone(),
            _ => unreachable!(),
        };
        let results: Vec<PromiseResultC> = a
            .inputs
            .iter()
            .map(|d| match self.received.remove(&(r.receiver.clone(), *d)) {
                Some(Some(v)) => PromiseResultC::Ok(v),
                Some(None) => PromiseResultC::Failed,
                None => unreachable!(),
            })
            .collect();
        let before = self.accounts.get(&r.receiver).cloned();
        let pre = before.as_ref().map(|x| (x.amount, x.locked));
        let val_before = self.val.clone();
        let mut actor = r.predecessor.clone();
        let mut gas_burnt: Gas = self.receipt_exec_fee();
        let mut gas_used: Gas = gas_burnt;
        let mut call_burnt: Gas = 0;
        let mut new: Vec<Receipt> = vec![];
        let mut ret = Ret::None;
        let mut ret_idx: Option<usize> = None;
        let mut logs = vec![];
        let mut failure: Option<(Fail, String)> = None;
        let n = a.actions.len();
        for (i, act) in a.actions.iter().enumerate() {
            let fee = self.exec_fee(act, &r.receiver);
            gas_burnt += fee;
            gas_used += fee;
            ret = Ret::None;
            ret_idx = None;
            let exists = self.accounts.contains_key(&r.receiver);
            // Existence and permission checks.
            let bad = match act {
                Action::CreateAccount => {
                    if exists {
                        Some("exists".to_string())
                    } else if implicit(&r.receiver) {
                        Some("implicit only by transfer".into())
                    } else {
                        None
                    }
                }
                Action::Transfer(_) => {
                    if !exists && !(n == 1 && implicit(&r.receiver) && !r.is_refund()) {
                        Some("account does not exist".into())
                    } else {
                        None
                    }
                }
                _ => {
                    if !exists {
                        Some("account does not exist".into())
                    } else {
                        None
                    }
                }
            }
            .or_else(|| match act {
                Action::Deploy(_)
                | Action::Stake { .. }
                | Action::AddKey { .. }
                | Action::DeleteKey { .. }
                | Action::DeleteAccount { .. }
                    if actor != r.receiver =>
                {
                    Some("actor no permission".to_string())
                }
                Action::DeleteAccount { .. } if self.accounts[&r.receiver].locked != 0 => {
                    Some("account is staking".to_string())
                }
                _ => None,
            });
            if let Some(e) = bad {
                failure = Some((Fail::Action, e));
                break;
            }
            match act {
                Action::CreateAccount => {
                    let top = !r.receiver.contains('.');
                    if !top && !r.receiver.ends_with(&format!(".{}", r.predecessor))
                        || (!top
                            && r.receiver[..r.receiver.len() - r.predecessor.len() - 1]
                                .contains('.'))
                    {
                        failure = Some((Fail::Action, "create not allowed".into()));
                        break;
                    }
                    actor = r.receiver.clone();
                    self.accounts.insert(r.receiver.clone(), Account::empty());
                }
                Action::Deploy(b) => {
                    let c = Code::new(b.to_vec());
                    let acc = self.accounts.get_mut(&r.receiver).unwrap();
                    if let Some(o) = &acc.code {
                        acc.usage = acc.usage.saturating_sub(o.bytes.len() as u64);
                    }
                    acc.usage += c.bytes.len() as u64;
                    acc.code = Some(c);
                }
                Action::Transfer(d) => {
                    if !exists {
                        self.accounts.insert(r.receiver.clone(), Account::empty());
                    }
                    self.accounts.get_mut(&r.receiver).unwrap().amount += d;
                }
                Action::Stake { stake, pk: _ } => {
                    let min = self.val.min_stake;
                    let acc = self.accounts.get_mut(&r.receiver).unwrap();
                    let inc = stake.saturating_sub(acc.locked);
                    if acc.amount < inc {
                        failure = Some((Fail::Action, "tries to stake".into()));
                        break;
                    }
                    if acc.locked == 0 && *stake == 0 {
                        failure = Some((Fail::Action, "tries to unstake".into()));
                        break;
                    }
                    if *stake > 0 && *stake < min {
                        failure = Some((Fail::Action, "insufficient stake".into()));
                        break;
                    }
                    acc.amount -= inc;
                    acc.locked += inc;
                    self.val.proposals.insert(r.receiver.clone(), *stake);
                }
                Action::AddKey { pk, perm } => {
                    let acc = self.accounts.get_mut(&r.receiver).unwrap();
                    if acc.keys.contains_key(pk) {
                        failure = Some((Fail::Action, "key exists".into()));
                        break;
                    }
                    acc.usage += key_usage(pk, perm);
                    acc.keys.insert(pk.clone(), perm.clone());
                }
                Action::DeleteKey { pk } => {
                    let acc = self.accounts.get_mut(&r.receiver).unwrap();
                    match acc.keys.remove(pk) {
                        Some(p) => acc.usage = acc.usage.saturating_sub(key_usage(pk, &p)),
                        None => {
                            failure = Some((Fail::Action, "key missing".into()));
                            break;
                        }
                    }
                }
                Action::DeleteAccount { beneficiary } => {
                    let acc = self.accounts.remove(&r.receiver).unwrap();
                    if acc.amount > 0 {
                        new.push(self.refund(&r, beneficiary, acc.amount, "system"));
                    }
                    actor = r.predecessor.clone();
                }
                Action::Call { method, args, gas, deposit } => {
                    let fk = (r.receiver.clone(), method.clone());
                    if let Some(c) = self.forced.get_mut(&fk) {
                        *c -= 1;
                        if *c == 0 {
                            self.forced.remove(&fk);
                        }
                        self.stats.fault("callee_failure");
                        gas_burnt += TGAS.min(*gas);
                        gas_used += TGAS.min(*gas);
                        failure = Some((Fail::Injected, "injected callee failure".into()));
                        break;
                    }
                    if let Some(mut rep) = self.reply(&r.receiver, method, args) {
                        if let Some(k) = rep.scale {
                            let own = self.view(&r.receiver, method, args).ok();
                            let own = own.and_then(|b| serde_json::from_slice::<serde_json::Value>(&b).ok());
                            let own: u128 = own.as_ref().and_then(|v| v.as_str()).and_then(|v| v.parse().ok()).unwrap_or(0);
                            self.stats.fault("false_report");
                            rep.value = Some(format!("\"{}\"", (own / 1000 * k as u128 + own % 1000 * k as u128 / 1000).max(own.min(1))));
                        }
                        let burn = TGAS.min(*gas);
                        gas_burnt += burn;
                        gas_used += burn;
                        call_burnt += burn;
                        if rep.fail {
                            self.stats.fault("external_contract_failure");
                            failure = Some((Fail::Guest, "external contract failed".into()));
                            break;
                        }
                        let acc = self.accounts.get_mut(&r.receiver).unwrap();
                        acc.amount += deposit;
                        let base = new.len();
                        let mut left = *gas - burn;
                        for (to, m, ar, dep, g) in &rep.calls {
                            let dep: u128 = dep.parse().unwrap();
                            let act = Action::Call {
                                method: m.clone(),
                                args: serde_json::to_vec(ar).unwrap(),
                                gas: *g,
                                deposit: dep,
                            };
                            let need = g + self.exec_fee(&act, to) + self.receipt_exec_fee();
                            let acc = self.accounts.get_mut(&r.receiver).unwrap();
                            if left < need || acc.amount < dep {
                                failure = Some((Fail::Gas, "external contract out of gas".into()));
                                break;
                            }
                            left -= need;
                            gas_used += need;
                            acc.amount -= dep;
                            let mut inputs = vec![];
                            if rep.then && new.len() > base {
                                inputs.push(self.next_id);
                                if let Kind::Action(x) = &mut new.last_mut().unwrap().kind {
                                    x.outputs.push((self.next_id, to.clone()));
                                }
                                self.next_id += 1;
                            }
                            new.push(Receipt {
                                id: 0,
                                origin: r.receiver.clone(),
                                predecessor: r.receiver.clone(),
                                receiver: to.clone(),
                                root: r.root,
                                parent: r.id,
                                kind: Kind::Action(ActionReceipt {
                                    signer: a.signer.clone(),
                                    signer_pk: a.signer_pk.clone(),
                                    outputs: vec![],
                                    inputs,
                                    actions: vec![act],
                                }),
                            });
                        }
                        if failure.is_some() {
                            break;
                        }
                        if rep.chain && new.len() > base {
                            ret_idx = Some(new.len() - 1);
                        } else {
                            ret = match rep.value {
                                Some(v) => Ret::Value(v.into_bytes()),
                                None => Ret::None,
                            };
                        }
                        continue;
                    }
                    let acc = self.accounts.get_mut(&r.receiver).unwrap();
                    let code = match &acc.code {
                        Some(c) => c.clone(),
                        None => {
                            failure = Some((Fail::Vm, "no code".into()));
                            break;
                        }
                    };
                    let mut over = BTreeMap::new();
                    let mut ext = Ext {
                        base: &acc.storage,
                        over: &mut over,
                        receipts: vec![],
                        next_data: &mut self.next_id,
                        signer: a.signer.clone(),
                        signer_pk: a.signer_pk.clone(),
                        val: &self.val,
                    };
                    let ctx = VMContext {
                        current_account_id: r.receiver.clone(),
                        signer_account_id: a.signer.clone(),
                        signer_account_pk: a.signer_pk.clone(),
                        predecessor_account_id: r.predecessor.clone(),
                        input: args.clone(),
                        block_index: self.height,
                        block_timestamp: self.time,
                        epoch_height: self.epoch,
                        account_balance: acc.amount,
                        account_locked_balance: acc.locked,
                        storage_usage: acc.usage,
                        attached_deposit: *deposit,
                        prepaid_gas: *gas,
                        random_seed: crate::util::sha256(&r.id.to_le_bytes()),
                        is_view: false,
                        output_data_receivers: if i + 1 == n {
                            a.outputs.iter().map(|o| o.1.clone()).collect()
                        } else {
                            vec![]
                        },
                    };
                    let prs: Vec<PromiseResult> = results
                        .iter()
                        .map(|p| match p {
                            PromiseResultC::Ok(v) => PromiseResult::Successful(v.clone()),
                            PromiseResultC::Failed => PromiseResult::Failed,
                        })
                        .collect();
                    let (out, err) = near_vm_runner::run_vm(
                        code.hash.clone(),
                        &code.bytes,
                        method,
                        &mut ext,
                        ctx,
                        &self.cfg.vm,
                        &self.cfg.fees,
                        &prs,
                        VMKind::Wasmer0,
                        PROTOCOL,
                        Some(&*self.cache),
                    );
                    let made = std::mem::take(&mut ext.receipts);
                    drop(ext);
                    if let Some(o) = &out {
                        gas_burnt += o.burnt_gas;
                        gas_used += o.used_gas;
                        call_burnt += o.burnt_gas;
                        logs.extend(o.logs.iter().cloned());
                        crate::util::reached(&o.logs);
                    }
                    if let Some(e) = err {
                        failure = Some((classify(&e), format!("{}", e)));
                        break;
                    }
                    let o = out.unwrap();
                    // Receipt validation of what the contract created.
                    if let Some(e) = made.iter().find_map(|m| invalid_receipt(m, &self.cfg.vm)) {
                        failure = Some((Fail::Vm, e));
                        break;
                    }
                    let acc = self.accounts.get_mut(&r.receiver).unwrap();
                    acc.amount = o.balance;
                    acc.usage = o.storage_usage;
                    for (k, v) in over {
                        match v {
                            Some(v) => {
                                acc.storage.insert(k, v);
                            }
                            None => {
                                acc.storage.remove(&k);
                            }
                        }
                    }
                    let base = new.len();
                    for (to, ar) in made {
                        new.push(Receipt {
                            id: 0,
                            origin: r.receiver.clone(),
                            predecessor: r.receiver.clone(),
                            receiver: to,
                            root: r.root,
                            parent: r.id,
                            kind: Kind::Action(ar),
                        });
                    }
                    match o.return_data {
                        ReturnData::Value(v) => ret = Ret::Value(v),
                        ReturnData::None => ret = Ret::None,
                        ReturnData::ReceiptIndex(ix) => ret_idx = Some(base + ix as usize),
                    }
                }
            }
        }
        if failure.is_none() {
            if let Some(acc) = self.accounts.get(&r.receiver) {
                if acc.total() < acc.usage as u128 * self.cfg.storage_price {
                    failure = Some((Fail::Storage, "lack balance for state".into()));
                }
            }
        }
        let ok = failure.is_none();
        if !ok {
            // Roll everything back.
            match before {
                Some(b) => {
                    self.accounts.insert(r.receiver.clone(), b);
                }
                None => {
                    self.accounts.remove(&r.receiver);
                }
            }
            self.val = val_before;
            new.clear();
            ret = Ret::None;
            ret_idx = None;
            *self.stats.fails.entry(format!("{:?}", failure.as_ref().unwrap().0)).or_default() += 1;
        }
        let mut reward = 0;
        if r.is_refund() {
            if !ok {
                self.burnt += r.deposit();
            }
        } else {
            let prepaid: Gas = a.actions.iter().map(|x| x.gas()).sum();
            let exec: Gas = a.actions.iter().map(|x| self.exec_fee(x, &r.receiver)).sum::<u64>()
                + self.receipt_exec_fee();
            let deposit = r.deposit();
            if !ok && deposit > 0 {
                new.push(self.refund(&r, &r.predecessor.clone(), deposit, "system"));
            }
            let g = prepaid + exec - if ok { gas_used } else { gas_burnt };
            let gr = self.gas_cost(g);
            if gr > 0 {
                new.push(self.refund(&r, &a.signer.clone(), gr, "system"));
            }
            let mut burn = self.gas_cost(gas_burnt);
            let rw = self.gas_cost(burnt_reward(call_burnt));
            if rw > 0 {
                if let Some(acc) = self.accounts.get_mut(&r.receiver) {
                    acc.amount += rw;
                    burn -= rw;
                    reward = rw;
                }
            }
            self.burnt += burn;
        }
        if !a.outputs.is_empty() {
            if let Some(ix) = ret_idx {
                match &mut new[ix].kind {
                    Kind::Action(na) => na.outputs.extend(a.outputs.iter().cloned()),
                    _ => unreachable!(),
                }
            } else {
                let data = match (&ret, ok) {
                    (_, false) => None,
                    (Ret::Value(v), _) => Some(v.clone()),
                    _ => Some(vec![]),
                };
                for (id, to) in &a.outputs {
                    new.push(Receipt {
                        id: 0,
                        origin: r.receiver.clone(),
                        predecessor: r.receiver.clone(),
                        receiver: to.clone(),
                        root: r.root,
                        parent: r.id,
                        kind: Kind::Data { id: *id, data: data.clone() },
                    });
                }
            }
        }
        for x in new.iter_mut() {
            x.id = self.next_id;
            self.next_id += 1;
        }
        if let Some(ix) = ret_idx {
            ret = Ret::Promise(new[ix].id);
        }
        for x in &new {
            self.enqueue(x.clone());
        }
        let post = self.accounts.get(&r.receiver).map(|x| (x.amount, x.locked));
        Exec {
            receipt: r,
            results,
            ok,
            fail: failure.as_ref().map(|f| f.0),
            err: failure.map(|f| f.1).unwrap_or_default(),
            ret,
            logs,
            pre,
            post,
            reward,
            out: new,
            time: self.time,
            height: self.height,
            epoch: self.epoch,
            gas_burnt,
        }
    }

    fn refund(&self, r: &Receipt, to: &str, amount: Balance, pred: &str) -> Receipt {
        Receipt {
            id: 0,
            origin: r.receiver.clone(),
            predecessor: pred.into(),
            receiver: to.into(),
            root: r.root,
            parent: r.id,
            kind: Kind::Action(ActionReceipt {
                signer: "system".into(),
                signer_pk: vec![0; 33],
                outputs: vec![],
                inputs: vec![],
                actions: vec![Action::Transfer(amount)],
            }),
        }
    }

    // ---- epochs ---------------------------------------------------------------------------
    /// True when an epoch switch is allowed now: no transaction may span two epoch boundaries.
    pub fn epoch_ready(&self) -> bool {
        self.root_epoch.values().all(|e| *e >= self.epoch)
    }
    /// Channels that must be drained before the next epoch switch.
    pub fn stale_channels(&self) -> Vec<(String, String)> {
        self.queues
            .iter()
            .filter(|(_, q)| {
                q.iter().any(|r| self.root_epoch.get(&r.root).map_or(false, |e| *e < self.epoch))
            })
            .map(|(k, _)| k.clone())
            .collect()
    }
    /// Ends the epoch: pays `rewards` (per validator account), drops `kicked` validators from the
    /// next-next epoch, and returns stake that is no longer needed.
    pub fn end_epoch(&mut self, rewards: &BTreeMap<String, Balance>, kicked: &BTreeSet<String>) {
        self.stats.epochs += 1;
        self.epoch += 1;
        self.height += 100;
        self.advance(43_200 * 1_000_000_000);
        let mut names: BTreeSet<String> = self.val.stakes.keys().cloned().collect();
        names.extend(self.val.proposals.keys().cloned());
        let props = std::mem::take(&mut self.val.proposals);
        for nme in names {
            let old = self.val.stakes.get(&nme).cloned().unwrap_or_default();
            let mut reward = 0;
            if old[0] > 0 {
                if let Some(r) = rewards.get(&nme) {
                    reward = *r;
                }
            }
            // Stake of the epoch after next: a proposal, or the stake rolled over with its reward.
            let mut nn = match props.get(&nme) {
                Some(p) => *p,
                None if old[2] > 0 => old[2] + reward,
                None => 0,
            };
            if kicked.contains(&nme) || nn < self.val.min_stake {
                nn = 0;
            }
            let st = [old[1], old[2], nn];
            if let Some(acc) = self.accounts.get_mut(&nme) {
                acc.locked += reward;
                self.minted += reward;
                let need = st.iter().cloned().max().unwrap();
                let ret = acc.locked.saturating_sub(need);
                acc.locked -= ret;
                acc.amount += ret;
            }
            if st == [0, 0, 0] {
                self.val.stakes.remove(&nme);
            } else {
                self.val.stakes.insert(nme, st);
            }
        }
    }

    /// Tokens everywhere: accounts, deposits and prepaid gas in flight, and burnt.
    pub fn check_conservation(&self) -> Result<(), String> {
        let mut sum: Balance = self.accounts.values().map(|a| a.total()).sum();
        let fly = |r: &Receipt| -> Balance {
            match &r.kind {
                Kind::Data { .. } => 0,
                Kind::Action(a) => {
                    let d = r.deposit();
                    if r.is_refund() {
                        d
                    } else {
                        let g: Gas = a.actions.iter().map(|x| x.gas()).sum::<u64>()
                            + a.actions
                                .iter()
                                .map(|x| self.exec_fee(x, &r.receiver))
                                .sum::<u64>()
                            + self.receipt_exec_fee();
                        d + self.gas_cost(g)
                    }
                }
            }
        };
        for q in self.queues.values() {
            for r in q {
                sum += fly(r);
            }
        }
        for (r, _) in self.postponed.values() {
            sum += fly(r);
        }
        if sum + self.burnt != self.minted {
            return Err(format!(
                "simulator conservation: {} + burnt {} != {}",
                sum, self.burnt, self.minted
            ));
        }
        Ok(())
    }
}

pub fn implicit(id: &str) -> bool {
    id.len() == 64 && id.bytes().all(|c| matches!(c, b'0'..=b'9' | b'a'..=b'f'))
}
fn key_usage(pk: &[u8], p: &Perm) -> u64 {
    pk.len() as u64
        + 40
        + match p {
            Perm::Full => 9,
            Perm::Call { receiver, methods, .. } => {
                30 + receiver.len() as u64 + methods.iter().map(|m| m.len() as u64 + 4).sum::<u64>()
            }
        }
}
fn invalid_receipt(m: &(String, ActionReceipt), vm: &VMConfig) -> Option<String> {
    let l = &vm.limit_config;
    if !valid_account_id(&m.0) {
        return Some(format!("invalid receiver {}", m.0));
    }
    if m.1.actions.len() as u64 > l.max_actions_per_receipt {
        return Some("too many actions".into());
    }
    for (i, a) in m.1.actions.iter().enumerate() {
        match a {
            Action::Call { method, gas, .. } => {
                if *gas == 0 || method.is_empty() || method.len() as u64 > l.max_length_method_name {
                    return Some("invalid function call action".into());
                }
            }
            Action::DeleteAccount { beneficiary } => {
                if i + 1 != m.1.actions.len() || !valid_account_id(beneficiary) {
                    return Some("invalid delete action".into());
                }
            }
            // Only ed25519 keys may validate.
            Action::Stake { pk, .. } if pk.first() != Some(&0) => return Some("unsuitable staking key".into()),
            Action::AddKey { perm: Perm::Call { receiver, methods, .. }, .. } => {
                let t: u64 = methods.iter().map(|m| m.len() as u64 + 1).sum();
                if t > l.max_number_bytes_method_names
                    || methods.iter().any(|m| m.is_empty())
                    || !valid_account_id(receiver)
                {
                    return Some("invalid key".into());
                }
            }
            _ => {}
        }
    }
    None
}
