//! A test case (program, environment, script of sub-call outcomes) and what running it showed.
use revm_context_interface::cfg::{GasId, GasParams};
use revm_primitives::{Address, B256, U256, hardfork::SpecId, hex};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const FORKS: [SpecId; 15] = [
    SpecId::FRONTIER,
    SpecId::HOMESTEAD,
    SpecId::TANGERINE,
    SpecId::SPURIOUS_DRAGON,
    SpecId::BYZANTIUM,
    SpecId::PETERSBURG,
    SpecId::ISTANBUL,
    SpecId::BERLIN,
    SpecId::LONDON,
    SpecId::MERGE,
    SpecId::SHANGHAI,
    SpecId::CANCUN,
    SpecId::PRAGUE,
    SpecId::OSAKA,
    SpecId::AMSTERDAM,
];
pub const FRONTIER: usize = 0;
pub const HOMESTEAD: usize = 1;
pub const TANGERINE: usize = 2;
pub const SPURIOUS: usize = 3;
pub const BYZANTIUM: usize = 4;
pub const PETERSBURG: usize = 5;
pub const ISTANBUL: usize = 6;
pub const BERLIN: usize = 7;
pub const LONDON: usize = 8;
pub const SHANGHAI: usize = 10;
pub const CANCUN: usize = 11;
pub const OSAKA: usize = 13;
pub const AMSTERDAM: usize = 14;

pub fn w(x: U256) -> String {
    hex::encode(x.to_be_bytes::<32>())
}
pub fn uw(s: &str) -> U256 {
    U256::from_be_slice(&hex::decode(s).unwrap())
}
pub fn addr_w(a: Address) -> String {
    hex::encode(a.into_word())
}
pub fn w_addr(s: &str) -> Address {
    Address::from_word(B256::from_slice(&hex::decode(s).unwrap()))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Env {
    pub origin: String,
    pub gasprice: String,
    pub coinbase: String,
    pub timestamp: String,
    pub number: String,
    pub difficulty: String,
    pub prevrandao: String,
    pub gaslimit: String,
    pub chainid: String,
    pub basefee: String,
    pub blobbasefee: String,
    pub slotnum: String,
    pub blobhashes: Vec<String>,
    pub maxinit: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Acct {
    pub a: String,
    pub bal: String,
    pub nonce: u64,
    pub code: String,
    pub warm: bool,
    pub exists: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Slot {
    pub k: String,
    pub orig: String,
    pub cur: String,
    pub warm: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Outcome {
    /// "ok", "revert" or "halt".
    pub r: String,
    pub out: String,
    /// Gas handed back, in 256ths of what was forwarded.
    pub frac: u64,
    pub refund: i64,
    /// Address reported by a successful create.
    pub addr: String,
    /// State gas the child kept from the reservoir.
    pub rsv_used: u64,
    /// Storage writes to this contract made by the child (re-entrancy).
    pub sstore: Vec<(String, String)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Config {
    pub inspect: bool,
    pub dedup: bool,
    pub dse: bool,
    pub single_error: bool,
    pub debug_assert: bool,
    pub opt: u8,
    /// Analysis budget; -1 for the default.
    pub budget: i64,
    /// Fill of the unused part of the interpreter's stack buffer.
    pub garbage: u8,
}

impl Default for Config {
    fn default() -> Self {
        Self { inspect: true, dedup: true, dse: true, single_error: true, debug_assert: false, opt: 2, budget: -1, garbage: 0xa5 }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub id: u64,
    pub prof: String,
    pub kind: String,
    pub fork: usize,
    pub code: String,
    pub input: String,
    /// Calldata lives in the parent's memory rather than in its own buffer.
    pub shared: bool,
    /// Bytes of parent memory before this frame's.
    pub parent: usize,
    pub gas: u64,
    pub rsv: u64,
    pub eip8037: bool,
    #[serde(rename = "static")]
    pub is_static: bool,
    /// This contract already self-destructed in this transaction.
    #[serde(default)]
    pub dead: bool,
    #[serde(rename = "self")]
    pub this: String,
    pub caller: String,
    pub value: String,
    pub env: Env,
    pub accts: Vec<Acct>,
    pub storage: Vec<Slot>,
    pub tstorage: Vec<(String, String)>,
    /// Gas parameters by name, as the specification uses them.
    pub gp: BTreeMap<String, u64>,
    /// Whether `gp` differs from the fork's own table.
    pub custom_gp: bool,
    pub script: Vec<Outcome>,
    pub cfg: Config,
}

/// The gas parameters the specification knows, by name.
pub fn gas_ids() -> Vec<(&'static str, GasId)> {
    vec![
        ("exp_byte", GasId::exp_byte_gas()),
        ("logdata", GasId::logdata()),
        ("logtopic", GasId::logtopic()),
        ("copy", GasId::copy_per_word()),
        ("extcopy", GasId::extcodecopy_per_word()),
        ("mcopy", GasId::mcopy_per_word()),
        ("keccak", GasId::keccak256_per_word()),
        ("mem_lin", GasId::memory_linear_cost()),
        ("mem_quad", GasId::memory_quadratic_reduction()),
        ("initcode", GasId::initcode_per_word()),
        ("create", GasId::create()),
        ("call_red", GasId::call_stipend_reduction()),
        ("transfer", GasId::transfer_value_cost()),
        ("cold_acct", GasId::cold_account_additional_cost()),
        ("new_acct", GasId::new_account_cost()),
        ("warm_read", GasId::warm_storage_read_cost()),
        ("sstore_static", GasId::sstore_static()),
        ("sstore_set", GasId::sstore_set_without_load_cost()),
        ("sstore_reset", GasId::sstore_reset_without_cold_load_cost()),
        ("sstore_set_refund", GasId::sstore_set_refund()),
        ("sstore_reset_refund", GasId::sstore_reset_refund()),
        ("sstore_clear_refund", GasId::sstore_clearing_slot_refund()),
        ("sd_refund", GasId::selfdestruct_refund()),
        ("stipend", GasId::call_stipend()),
        ("cold_slot_add", GasId::cold_storage_additional_cost()),
        ("cold_slot", GasId::cold_storage_cost()),
        ("new_acct_sd", GasId::new_account_cost_for_selfdestruct()),
        ("sstore_state", GasId::sstore_set_state_gas()),
        ("new_acct_state", GasId::new_account_state_gas()),
        ("create_state", GasId::create_state_gas()),
    ]
}

pub fn gp_of(spec: SpecId) -> BTreeMap<String, u64> {
    let p = GasParams::new_spec(spec);
    gas_ids().into_iter().map(|(n, id)| (n.to_string(), p.get(id))).collect()
}

impl Case {
    pub fn gas_params(&self) -> GasParams {
        let mut p = GasParams::new_spec(FORKS[self.fork]);
        p.override_gas(gas_ids().into_iter().map(|(n, id)| (id, self.gp[n])));
        p
    }
    pub fn spec(&self) -> SpecId {
        FORKS[self.fork]
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct World {
    pub sto: BTreeMap<String, String>,
    pub tsto: BTreeMap<String, String>,
    pub bal: BTreeMap<String, String>,
    pub warm_a: Vec<String>,
    pub warm_s: Vec<String>,
    pub logs: Vec<LogRec>,
    pub dead: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct LogRec {
    pub a: String,
    pub topics: Vec<String>,
    pub data: String,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Req {
    pub scheme: String,
    pub target: String,
    pub caller: String,
    pub code_addr: String,
    pub value: String,
    pub transfer: bool,
    pub gas: u64,
    pub input: String,
    pub out_off: u64,
    pub out_len: u64,
    #[serde(rename = "static")]
    pub is_static: bool,
    pub rsv: u64,
    pub charged: bool,
    pub code: String,
    pub salt: String,
    /// Hash of the code a call is to run.
    pub khash: String,
}

/// One observable moment: a suspension or the end.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Seg {
    /// call, create, stop, return, selfdestruct, revert, halt, crash, cut
    pub k: String,
    pub why: String,
    pub gas: u64,
    pub rsv: u64,
    pub ssp: i64,
    pub refund: i64,
    pub has_stack: bool,
    pub stack: Vec<String>,
    pub mem: String,
    pub out: String,
    pub world: Option<World>,
    pub req: Req,
}

pub type Obs = Vec<Seg>;
