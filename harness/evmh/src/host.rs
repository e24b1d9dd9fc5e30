//! A host with warm/cold sets, original and current storage, balances, logs and destructions: the
//! world part of the specification's state.
use crate::case::*;
use revm_bytecode::Bytecode;
use revm_context_interface::{
    cfg::GasParams,
    context::{SStoreResult, SelfDestructResult, StateLoad},
    host::{Host, LoadError},
    journaled_state::AccountInfoLoad,
};
use revm_primitives::{Address, B256, Bytes, KECCAK_EMPTY, Log, U256, hex, keccak256};
use revm_state::AccountInfo;
use std::{
    borrow::Cow,
    collections::{BTreeMap, BTreeSet},
};

#[derive(Clone)]
struct A {
    info: AccountInfo,
    exists: bool,
}

#[derive(Clone)]
pub struct SpecHost {
    env: Env,
    fork: usize,
    eip8037: bool,
    this: Address,
    gp: GasParams,
    accts: BTreeMap<Address, A>,
    warm: BTreeSet<Address>,
    orig: BTreeMap<U256, U256>,
    cur: BTreeMap<U256, U256>,
    warm_s: BTreeSet<U256>,
    tsto: BTreeMap<U256, U256>,
    logs: Vec<LogRec>,
    dead: BTreeSet<Address>,
    /// Calls that named an account other than the executing one for storage.
    pub stray: Vec<String>,
}

impl SpecHost {
    pub fn new(c: &Case) -> Self {
        let mut accts = BTreeMap::new();
        let mut warm = BTreeSet::new();
        for a in &c.accts {
            let code = hex::decode(&a.code).unwrap();
            let hash = if code.is_empty() { KECCAK_EMPTY } else { keccak256(&code) };
            let addr = w_addr(&a.a);
            let code = if code.is_empty() { Bytecode::new() } else { Bytecode::new_raw(Bytes::from(code)) };
            accts.insert(
                addr,
                A {
                    info: AccountInfo { balance: uw(&a.bal), nonce: a.nonce, code_hash: hash, account_id: None, code: Some(code) },
                    exists: a.exists,
                },
            );
            if a.warm {
                warm.insert(addr);
            }
        }
        let mut h = Self {
            env: c.env.clone(),
            fork: c.fork,
            eip8037: c.eip8037,
            this: w_addr(&c.this),
            gp: c.gas_params(),
            accts,
            warm,
            orig: Default::default(),
            cur: Default::default(),
            warm_s: Default::default(),
            tsto: Default::default(),
            logs: vec![],
            dead: c.dead.then(|| w_addr(&c.this)).into_iter().collect(),
            stray: vec![],
        };
        for s in &c.storage {
            h.orig.insert(uw(&s.k), uw(&s.orig));
            h.cur.insert(uw(&s.k), uw(&s.cur));
            if s.warm {
                h.warm_s.insert(uw(&s.k));
            }
        }
        for (k, v) in &c.tstorage {
            h.tsto.insert(uw(k), uw(v));
        }
        h
    }

    pub fn child_sstore(&mut self, k: U256, v: U256) {
        self.warm_s.insert(k);
        self.cur.insert(k, v);
    }

    fn acct(&self, a: Address) -> A {
        self.accts.get(&a).cloned().unwrap_or(A {
            info: AccountInfo { balance: U256::ZERO, nonce: 0, code_hash: KECCAK_EMPTY, account_id: None, code: Some(Bytecode::new()) },
            exists: false,
        })
    }

    fn empty(&self, a: Address) -> bool {
        let x = self.acct(a);
        if self.fork >= SPURIOUS {
            x.info.balance.is_zero() && x.info.nonce == 0 && x.info.code_hash == KECCAK_EMPTY
        } else {
            !x.exists
        }
    }

    /// Non-zero storage, non-default balances and so on: the observable projection.
    pub fn world(&self) -> World {
        World {
            sto: self.cur.iter().filter(|(_, v)| !v.is_zero()).map(|(k, v)| (w(*k), w(*v))).collect(),
            tsto: self.tsto.iter().filter(|(_, v)| !v.is_zero()).map(|(k, v)| (w(*k), w(*v))).collect(),
            bal: self
                .accts
                .iter()
                .filter(|(_, x)| !x.info.balance.is_zero())
                .map(|(a, x)| (addr_w(*a), w(x.info.balance)))
                .collect(),
            warm_a: self.warm.iter().map(|a| addr_w(*a)).collect(),
            warm_s: self.warm_s.iter().map(|a| w(*a)).collect(),
            logs: self.logs.clone(),
            dead: self.dead.iter().map(|a| addr_w(*a)).collect(),
        }
    }

    fn own(&mut self, what: &str, a: Address) {
        if a != self.this {
            self.stray.push(format!("{what} on {a}"));
        }
    }
}

impl Host for SpecHost {
    fn basefee(&self) -> U256 {
        uw(&self.env.basefee)
    }
    fn blob_gasprice(&self) -> U256 {
        uw(&self.env.blobbasefee)
    }
    fn gas_limit(&self) -> U256 {
        uw(&self.env.gaslimit)
    }
    fn difficulty(&self) -> U256 {
        uw(&self.env.difficulty)
    }
    fn prevrandao(&self) -> Option<U256> {
        Some(uw(&self.env.prevrandao))
    }
    fn block_number(&self) -> U256 {
        uw(&self.env.number)
    }
    fn timestamp(&self) -> U256 {
        uw(&self.env.timestamp)
    }
    fn beneficiary(&self) -> Address {
        w_addr(&self.env.coinbase)
    }
    fn slot_num(&self) -> U256 {
        uw(&self.env.slotnum)
    }
    fn chain_id(&self) -> U256 {
        uw(&self.env.chainid)
    }
    fn effective_gas_price(&self) -> U256 {
        uw(&self.env.gasprice)
    }
    fn caller(&self) -> Address {
        w_addr(&self.env.origin)
    }
    fn blob_hash(&self, number: usize) -> Option<U256> {
        self.env.blobhashes.get(number).map(|x| uw(x))
    }
    fn max_initcode_size(&self) -> usize {
        self.env.maxinit
    }
    fn gas_params(&self) -> &GasParams {
        &self.gp
    }
    fn is_amsterdam_eip8037_enabled(&self) -> bool {
        self.eip8037
    }
    fn block_hash(&mut self, number: u64) -> Option<B256> {
        Some(keccak256(number.to_be_bytes()))
    }
    fn selfdestruct(&mut self, address: Address, target: Address, skip_cold_load: bool) -> Result<StateLoad<SelfDestructResult>, LoadError> {
        self.own("selfdestruct", address);
        let cold = !self.warm.contains(&target);
        if cold && skip_cold_load {
            return Err(LoadError::ColdLoadSkipped);
        }
        self.warm.insert(target);
        let target_exists = !self.empty(target);
        let bal = self.acct(address).info.balance;
        let previously_destroyed = !self.dead.insert(address);
        if target != address {
            let mut t = self.acct(target);
            t.info.balance = t.info.balance.wrapping_add(bal);
            t.exists = true;
            self.accts.insert(target, t);
        }
        if target != address || self.fork < CANCUN {
            let mut s = self.acct(address);
            s.info.balance = U256::ZERO;
            self.accts.insert(address, s);
        }
        Ok(StateLoad::new(SelfDestructResult { had_value: !bal.is_zero(), target_exists, previously_destroyed }, cold))
    }
    fn log(&mut self, log: Log) {
        self.logs.push(LogRec {
            a: addr_w(log.address),
            topics: log.data.topics().iter().map(|t| hex::encode(t)).collect(),
            data: hex::encode(&log.data.data),
        });
    }
    fn sstore_skip_cold_load(&mut self, address: Address, key: U256, value: U256, skip: bool) -> Result<StateLoad<SStoreResult>, LoadError> {
        self.own("sstore", address);
        let cold = !self.warm_s.contains(&key);
        if cold && skip {
            return Err(LoadError::ColdLoadSkipped);
        }
        self.warm_s.insert(key);
        let original_value = self.orig.get(&key).copied().unwrap_or_default();
        let present_value = self.cur.insert(key, value).unwrap_or_default();
        Ok(StateLoad::new(SStoreResult { original_value, present_value, new_value: value }, cold))
    }
    fn sload_skip_cold_load(&mut self, address: Address, key: U256, skip: bool) -> Result<StateLoad<U256>, LoadError> {
        self.own("sload", address);
        let cold = !self.warm_s.contains(&key);
        if cold && skip {
            return Err(LoadError::ColdLoadSkipped);
        }
        self.warm_s.insert(key);
        Ok(StateLoad::new(self.cur.get(&key).copied().unwrap_or_default(), cold))
    }
    fn tstore(&mut self, address: Address, key: U256, value: U256) {
        self.own("tstore", address);
        self.tsto.insert(key, value);
    }
    fn tload(&mut self, address: Address, key: U256) -> U256 {
        self.own("tload", address);
        self.tsto.get(&key).copied().unwrap_or_default()
    }
    fn load_account_info_skip_cold_load(&mut self, address: Address, _load_code: bool, skip: bool) -> Result<AccountInfoLoad<'_>, LoadError> {
        let cold = !self.warm.contains(&address);
        if cold && skip {
            return Err(LoadError::ColdLoadSkipped);
        }
        self.warm.insert(address);
        Ok(AccountInfoLoad { account: Cow::Owned(self.acct(address).info), is_cold: cold, is_empty: self.empty(address) })
    }
}
