//! Scenario format.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(default)]
pub struct Cfg {
    pub enabled: bool,
    pub blocking: bool,
    /// Observed and explicit requests compile ahead-of-time artifacts.
    pub aot: bool,
    pub store: bool,
    pub thr: usize,
    pub maxlen: usize,
    pub pend: usize,
    pub workers: usize,
    pub qcap: usize,
    pub chan: usize,
    pub drain: usize,
    /// Resident budget, in programs; negative: none.
    pub budget: i64,
    /// Idle time before eviction, ms; 0: none.
    pub idle: u64,
    pub sweep: u64,
    pub recycle: usize,
    pub shutdown: u64,
    /// Compile in a helper process.
    pub oop: bool,
    pub timeout: u64,
}

impl Default for Cfg {
    fn default() -> Self {
        Self {
            enabled: true,
            blocking: false,
            aot: false,
            store: false,
            thr: 2,
            maxlen: 100,
            pend: 64,
            workers: 2,
            qcap: 16,
            chan: 64,
            drain: 64,
            budget: -1,
            idle: 0,
            sweep: 3,
            recycle: 1000,
            shutdown: 60,
            oop: false,
            timeout: 5000,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Key {
    /// 0: empty code; otherwise what the program returns.
    pub code: u8,
    /// "h" (Homestead) or "c" (Cancun): the programs use different amounts of gas.
    pub fork: String,
    /// Longer than the configured limit.
    #[serde(default)]
    pub big: bool,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Op {
    pub op: String,
    pub k: usize,
    pub ks: Vec<usize>,
    pub hold: bool,
    pub w: String,
    pub on: bool,
    pub v: String,
    pub n: usize,
    pub ms: u64,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub id: String,
    pub cfg: Cfg,
    pub keys: Vec<Key>,
    pub ops: Vec<Op>,
}
