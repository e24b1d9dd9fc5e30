//! The executors.
use crate::{
    db::{Broken, Db},
    probe::{Ctx, Insp, Probe, Rec},
    world::*,
};
use alloy_evm::{Evm as _, EvmEnv, EvmFactory as _};
use revm_context::{BlockEnv, CfgEnv, Context, ContextSetters, TxEnv, either::Either, transaction::{AccessList, AccessListItem, Authorization, RecoveredAuthority, RecoveredAuthorization}};
use revm_context_interface::{JournalTr, block::BlobExcessGasAndPrice, cfg::gas_params::GasParams, result::{EVMError, ExecutionResult, HaltReason, ResultAndState}};
use revm_handler::{EvmTr, ExecuteCommitEvm, ExecuteEvm, Handler, MainBuilder, MainnetHandler, SystemCallCommitEvm, SystemCallEvm, SystemCallTx, instructions::EthInstructions};
use revm_inspector::{InspectCommitEvm, InspectEvm, InspectSystemCallEvm, InspectorHandler};
use revm_database_interface::DatabaseCommit;
use revm_primitives::{Address, B256, B256Map, Bytes, TxKind, U256, hardfork::SpecId, keccak256};
use revm_state::{AccountInfo, Bytecode, EvmState};
use revmc_context::{EvmCompilerFn, RawEvmCompilerFn};
use revmc_runtime::{alloy_evm::{JitEvm as AlloyJitEvm, JitEvmFactory}, revm_evm, runtime::{CompiledProgram, JitBackend, LookupRequest, RuntimeCacheKey, RuntimeConfig, RuntimeTuning}};
use serde_json::{Value, json};
use std::{cell::RefCell, collections::BTreeMap, rc::Rc, sync::Arc, time::Duration};

pub const SYSTEM: Address = Address::repeat_byte(0xFE);

type Err = EVMError<Broken>;
/// The result, and the changes unless they are in the database already.
type Ran = Result<(ExecutionResult<HaltReason>, Option<EvmState>), Err>;

fn block(w: &World) -> BlockEnv {
    BlockEnv {
        number: U256::from(1000),
        beneficiary: w.coinbase,
        timestamp: U256::from(1_700_000_000u64),
        gas_limit: 100_000_000,
        basefee: w.basefee,
        difficulty: U256::from(5),
        prevrandao: Some(B256::repeat_byte(0x5a)),
        blob_excess_gas_and_price: Some(BlobExcessGasAndPrice::new(0, 3_338_477)),
        slot_num: 9,
    }
}

fn cfg(w: &World, fork: SpecId) -> CfgEnv {
    let mut c = CfgEnv::new_with_spec(fork);
    c.set_spec_and_mainnet_gas_params(fork);
    if let Some(g) = schedule(w, fork) {
        c.gas_params = g;
    }
    c
}

/// Prices other than the network's.
pub fn schedule(w: &World, fork: SpecId) -> Option<GasParams> {
    if !w.prices {
        return None;
    }
    use revm_context_interface::cfg::gas_params::GasId;
    let mut g = GasParams::new_spec(fork);
    g.override_gas([(GasId::exp_byte_gas(), 77), (GasId::logdata(), 3), (GasId::logtopic(), 123), (GasId::keccak256_per_word(), 41), (GasId::memory_linear_cost(), 5)]);
    Some(g)
}

fn db(w: &World) -> Db {
    let mut d = Db::default();
    for a in &w.accts {
        let code = match a.delegate {
            Some(t) => Bytecode::new_eip7702(t),
            None => Bytecode::new_legacy(Bytes::from(a.code.clone())),
        };
        d.inner.insert_account_info(a.addr, AccountInfo { balance: a.balance, nonce: a.nonce, code_hash: code.hash_slow(), code: Some(code), ..Default::default() });
        for (k, v) in &a.storage {
            d.inner.insert_account_storage(a.addr, *k, *v).unwrap();
        }
    }
    for (a, b) in [(SENDER, u128::MAX / 2), (Address::repeat_byte(0x70), 5), (Address::repeat_byte(0x71), 0)] {
        d.inner.insert_account_info(a, AccountInfo { balance: U256::from(b), ..Default::default() });
    }
    d
}

fn context(w: &World, db: Db) -> Ctx {
    let mut c = Context::new(db, w.fork);
    c.set_block(block(w));
    c.modify_cfg(|x| *x = cfg(w, w.fork));
    c
}

fn probe(w: &World, insp: &Insp, rec: &Rc<RefCell<Rec>>, db: Db, fork: SpecId) -> Probe {
    let mut inner = context(w, db).build_mainnet_with_inspector(insp.clone());
    set_fork(w, &mut inner, fork);
    Probe { inner, rec: rec.clone() }
}

fn set_fork(w: &World, inner: &mut crate::probe::Inner, fork: SpecId) {
    inner.ctx.modify_cfg(|x| *x = cfg(w, fork));
    inner.instruction = EthInstructions::new_mainnet_with_spec(fork);
}

fn txenv(w: &World, t: &Tx, nonce: u64, fork: SpecId) -> TxEnv {
    let mut e = TxEnv {
        caller: SENDER,
        gas_limit: t.gas,
        gas_price: w.basefee as u128 + 3,
        kind: t.to.map(TxKind::Call).unwrap_or(TxKind::Create),
        value: t.value,
        data: Bytes::from(t.data.clone()),
        nonce: if t.bad_nonce { nonce + 5 } else { nonce },
        ..Default::default()
    };
    if fork >= SpecId::BERLIN && !t.access.is_empty() {
        e.tx_type = 1;
        e.access_list = AccessList(t.access.iter().map(|(a, k)| AccessListItem { address: *a, storage_keys: k.clone() }).collect());
    }
    if fork >= SpecId::PRAGUE && !t.auths.is_empty() {
        e.tx_type = 4;
        e.gas_priority_fee = Some(1);
        e.authorization_list = t
            .auths
            .iter()
            .map(|(who, to, n)| {
                let a = Authorization { chain_id: U256::from(1), address: *to, nonce: *n };
                Either::Right(RecoveredAuthorization::new_unchecked(a, RecoveredAuthority::Valid(*who)))
            })
            .collect();
    }
    e
}

pub fn backend(w: &World) -> JitBackend {
    let mut c = RuntimeConfig {
        enabled: true,
        blocking: w.mode == Mode::Blocking || (w.mode == Mode::Alloy && w.after == 1),
        single_error: w.settings & 1 != 0,
        no_dedup: w.settings & 2 != 0,
        no_dse: w.settings & 4 != 0,
        debug_assertions: w.settings & 8 != 0,
        gas_params: schedule(w, w.fork),
        ..Default::default()
    };
    c.tuning = RuntimeTuning {
        jit_hot_threshold: if matches!(w.mode, Mode::Hot) || (w.mode == Mode::Alloy && w.after == 2) { w.after } else { 1 << 40 },
        jit_worker_count: 2,
        event_drain_interval: Duration::from_millis(1),
        ..Default::default()
    };
    JitBackend::new(c).unwrap()
}

fn code_of(w: &World, k: usize) -> Bytes {
    let a = &w.accts[k];
    let code = match a.delegate {
        Some(t) => w.accts.iter().find(|x| x.addr == t).map(|x| x.code.clone()).unwrap_or_default(),
        None => a.code.clone(),
    };
    Bytes::from(code)
}

fn request(code: &Bytes, fork: SpecId) -> LookupRequest {
    LookupRequest { key: RuntimeCacheKey { code_hash: keccak256(code), spec_id: fork }, code: code.clone() }
}

enum Exec {
    Plain(Box<Probe>),
    Rt(Box<revm_evm::JitEvm<Probe>>),
    Map(Option<Box<Probe>>),
    Miss(Box<revmc_context::JitEvm<Probe, Box<dyn FnMut(B256, &[u8]) -> Option<EvmCompilerFn>>>>),
    Alloy(Box<AlloyJitEvm<Db, Insp>>),
}

macro_rules! entries {
    ($e:expr, $t:expr, $env:expr) => {{
        let (e, t, env) = ($e, $t, $env);
        match (t.inspect, t.entry) {
            (false, 0) => e.transact(env).map(|r| (r.result, Some(r.state))),
            (false, 1) => e.transact_one(env).map(|r| (r, Some(e.finalize()))),
            (false, 2) => e.transact_one(env).map(|r| {
                let s = e.finalize();
                (r, Some(s))
            }),
            (false, _) => {
                e.ctx_mut().set_tx(env);
                e.replay().map(|r| (r.result, Some(r.state)))
            }
            (true, 0) | (true, 1) => e.inspect_tx(env).map(|r| (r.result, Some(r.state))),
            (true, _) => e.inspect_one_tx(env).map(|r| (r, Some(e.finalize()))),
        }
    }};
}

impl Exec {
    fn run(&mut self, w: &World, t: &Tx, env: TxEnv, map: &B256Map<RawEvmCompilerFn>) -> Ran {
        let system = t.system && !matches!(w.mode, Mode::Map | Mode::Miss);
        let (to, data) = (t.to.unwrap_or_default(), Bytes::from(t.data.clone()));
        match self {
            Exec::Plain(p) => {
                if system {
                    p.inner.ctx.set_tx(<TxEnv as SystemCallTx>::new_system_tx_with_caller(SYSTEM, to, data));
                } else {
                    p.inner.ctx.set_tx(env);
                }
                let mut h = MainnetHandler::<Probe, Err, revm_handler::EthFrame>::default();
                let r = match (t.inspect, system) {
                    (false, false) => h.run(p),
                    (true, false) => h.inspect_run(p),
                    (false, true) => h.run_system_call(p),
                    (true, true) => h.inspect_run_system_call(p),
                };
                r.map(|r| (r, Some(p.inner.ctx.journaled_state.finalize())))
            }
            Exec::Rt(e) => {
                if system {
                    match (t.inspect, t.entry) {
                        (false, 0) => e.system_call_with_caller(SYSTEM, to, data).map(|r| (r.result, Some(r.state))),
                        (false, 1) => e.system_call_with_caller_commit(SYSTEM, to, data).map(|r| (r, None)),
                        (false, _) => e.system_call_one_with_caller(SYSTEM, to, data).map(|r| (r, Some(e.finalize()))),
                        (true, _) => e.inspect_system_call_with_caller(SYSTEM, to, data).map(|r| (r.result, Some(r.state))),
                    }
                } else if t.entry == 2 {
                    if t.inspect { e.inspect_tx_commit(env) } else { e.transact_commit(env) }.map(|r| (r, None))
                } else {
                    entries!(e, t, env)
                }
            }
            Exec::Map(p) => {
                let mut e = revmc_context::JitEvm::new(*p.take().unwrap(), map.clone());
                let r = entries!(&mut e, t, env);
                *p = Some(Box::new(e.into_inner()));
                r
            }
            Exec::Miss(e) => entries!(e, t, env),
            Exec::Alloy(e) => {
                e.set_inspector_enabled(t.inspect);
                let r: Result<ResultAndState, Err> = if system { e.transact_system_call(SYSTEM, to, data) } else { e.transact_raw(env) };
                r.map(|r| (r.result, Some(r.state)))
            }
        }
    }
    fn db(&mut self) -> &mut Db {
        match self {
            Exec::Plain(p) => &mut p.inner.ctx.journaled_state.database,
            Exec::Rt(e) => &mut e.inner_mut().inner.ctx.journaled_state.database,
            Exec::Map(p) => &mut p.as_mut().unwrap().inner.ctx.journaled_state.database,
            Exec::Miss(e) => &mut e.inner.ctx.journaled_state.database,
            Exec::Alloy(e) => e.components_mut().0,
        }
    }
    fn fork(&mut self, w: &World, f: SpecId) {
        match self {
            Exec::Plain(p) => set_fork(w, &mut p.inner, f),
            Exec::Rt(e) => set_fork(w, &mut e.inner_mut().inner, f),
            Exec::Map(p) => set_fork(w, &mut p.as_mut().unwrap().inner, f),
            Exec::Miss(e) => set_fork(w, &mut e.inner, f),
            Exec::Alloy(_) => unreachable!(),
        }
    }
}

fn outcome(r: &Result<ExecutionResult<HaltReason>, Err>) -> (String, String) {
    match r {
        Ok(ExecutionResult::Success { reason, gas, logs, output }) => ("ok".into(), format!("{reason:?} {gas:?} {output:?} logs {logs:?}")),
        Ok(ExecutionResult::Revert { gas, logs, output }) => ("revert".into(), format!("{gas:?} {output} logs {logs:?}")),
        // Compiled code does not tell halts apart.
        Ok(ExecutionResult::Halt { gas, logs, .. }) => ("halt".into(), format!("{gas:?} logs {logs:?}")),
        Err(EVMError::Database(e)) => ("error".into(), format!("database {e}")),
        Err(EVMError::Transaction(e)) => ("error".into(), format!("invalid {e:?}")),
        Err(e) => ("error".into(), format!("{e:?}")),
    }
}

fn state(s: &EvmState) -> String {
    let mut out: BTreeMap<Address, String> = BTreeMap::new();
    for (a, x) in s {
        if !x.is_touched() {
            continue;
        }
        let slots: BTreeMap<U256, U256> = x.storage.iter().filter(|(_, v)| v.is_changed()).map(|(k, v)| (*k, v.present_value)).collect();
        out.insert(
            *a,
            format!("{} {} {} created {} destroyed {} {slots:?}", x.info.balance, x.info.nonce, x.info.code_hash, x.is_created(), x.is_selfdestructed()),
        );
    }
    format!("{out:?}")
}

fn database(d: &Db) -> String {
    let mut out: BTreeMap<Address, String> = BTreeMap::new();
    for (a, x) in &d.inner.cache.accounts {
        let slots: BTreeMap<U256, U256> = x.storage.iter().filter(|(_, v)| !v.is_zero()).map(|(k, v)| (*k, *v)).collect();
        if x.info.is_empty() && slots.is_empty() {
            continue;
        }
        out.insert(*a, format!("{} {} {} {slots:?}", x.info.balance, x.info.nonce, x.info.code_hash));
    }
    format!("{out:?}")
}

/// Without the logs of frames that halt (see Tx.tla).
fn settled(told: Vec<Value>) -> Vec<Value> {
    let mut open: Vec<Vec<Value>> = vec![vec![]];
    for e in told {
        match e["t"].as_str().unwrap() {
            "start" => open.push(vec![e]),
            "end" if open.len() > 1 => {
                let mut own = open.pop().unwrap();
                if e["e"] == "halt" {
                    let mut depth = 0;
                    own.retain(|x| {
                        let t = x["t"].as_str().unwrap();
                        depth += (t == "start") as i32;
                        let keep = depth > 1 || !matches!(t, "log" | "destroy");
                        depth -= (t == "end") as i32;
                        keep
                    });
                }
                own.push(e);
                open.last_mut().unwrap().extend(own);
            }
            _ => open.last_mut().unwrap().push(e),
        }
    }
    open.concat()
}

fn digest(full: bool, s: &str) -> String {
    if full { s.to_string() } else { format!("{:x}", keccak256(s))[..20].to_string() }
}

pub fn run(w: &World, full: bool) -> Value {
    let (pi, ji) = (Insp { meddle: w.meddle, ..Default::default() }, Insp { meddle: w.meddle, ..Default::default() });
    let (pr, jr) = (Rc::new(RefCell::new(Rec::default())), Rc::new(RefCell::new(Rec::default())));
    let mut plain = Exec::Plain(Box::new(probe(w, &pi, &pr, db(w), w.fork)));
    let b = backend(w);
    let fork = Rc::new(std::cell::Cell::new(w.fork));
    let probed = w.mode != Mode::Alloy;
    let mut jit = match w.mode {
        Mode::Blocking | Mode::Ready | Mode::Hot => Exec::Rt(Box::new(revm_evm::JitEvm::new(probe(w, &ji, &jr, db(w), w.fork), b.clone()))),
        Mode::Map => Exec::Map(Some(Box::new(probe(w, &ji, &jr, db(w), w.fork)))),
        Mode::Miss => {
            let (b, fork, after) = (b.clone(), fork.clone(), w.after);
            let mut asked: BTreeMap<(B256, u8), usize> = BTreeMap::new();
            let mut keep: Vec<Arc<CompiledProgram>> = vec![];
            let f: Box<dyn FnMut(B256, &[u8]) -> Option<EvmCompilerFn>> = Box::new(move |h, code| {
                let n = asked.entry((h, fork.get() as u8)).or_default();
                *n += 1;
                // Some codes at once, some later, some never.
                let late = (h[0] as usize + after) % 4;
                if code.is_empty() || late == 3 || *n <= late * 2 {
                    return None;
                }
                if b.get_compiled(h, fork.get()).is_none() {
                    b.compile_jit_sync(request(&Bytes::copy_from_slice(code), fork.get())).unwrap();
                }
                let p = b.get_compiled(h, fork.get())?;
                keep.push(p.clone());
                Some(p.func)
            });
            Exec::Miss(Box::new(revmc_context::JitEvm::with_on_miss(probe(w, &ji, &jr, db(w), w.fork), B256Map::default(), f)))
        }
        Mode::Alloy => {
            let e = JitEvmFactory::new(b.clone()).create_evm_with_inspector(db(w), EvmEnv::new(cfg(w, w.fork), block(w)), ji.clone());
            Exec::Alloy(Box::new(e))
        }
    };
    let mut txs = vec![];
    let mut kept: Vec<Arc<CompiledProgram>> = vec![];
    let mut ever: Vec<(B256, SpecId)> = vec![];
    for t in &w.txs {
        if let Some(f) = t.fork {
            fork.set(f);
            plain.fork(w, f);
            jit.fork(w, f);
        }
        if t.clear {
            b.clear_resident();
        }
        if let (Exec::Rt(e), true) = (&mut jit, t.refresh) {
            e.set_backend(b.clone());
        }
        if matches!(w.mode, Mode::Ready | Mode::Map) || (w.mode == Mode::Alloy && w.after == 3) {
            for k in &t.compile {
                let c = code_of(w, *k);
                if !c.is_empty() {
                    b.compile_jit_sync(request(&c, fork.get())).unwrap();
                }
            }
        }
        let mut map: B256Map<RawEvmCompilerFn> = B256Map::default();
        let mut have: Vec<String> = vec![];
        for a in 0..w.accts.len() {
            let h = keccak256(code_of(w, a));
            if let Some(p) = b.get_compiled(h, fork.get()) {
                map.insert(h, p.func.into_inner());
                ever.push((h, fork.get()));
                kept.push(p);
            }
        }
        // An executor may hold on to what it has found once.
        have.extend(ever.iter().filter(|(h, f)| if w.mode == Mode::Map { map.contains_key(h) } else { *f == fork.get() }).map(|(h, _)| format!("{h:x}")[..12].to_string()));
        have.sort();
        have.dedup();
        let nonce = plain.db().inner.cache.accounts.get(&SENDER).map(|a| a.info.nonce).unwrap_or(0);
        // Later versions log value transfers too, which inspectors are not told of.
        let mut counted = t.inspect && fork.get() < SpecId::AMSTERDAM;
        let mut one = |e: &mut Exec, rec: &Rc<RefCell<Rec>>, insp: &Insp| {
            e.db().fail = t.fail;
            let env = txenv(w, t, nonce, fork.get());
            let r = e.run(w, t, env, &map);
            rec.borrow_mut().expect = false;
            rec.borrow_mut().interp = false;
            e.db().fail = None;
            let (r, s) = match r {
                Ok((r, s)) => (Ok(r), s),
                Err(x) => (Err(x), None),
            };
            let changed = s.as_ref().map(state);
            if let Some(s) = s {
                e.db().commit(s);
            }
            let (c, x) = outcome(&r);
            let short = |v: Vec<Value>| -> Vec<Value> {
                let mut out = vec![];
                let mut rest = String::new();
                for (i, mut e) in v.into_iter().enumerate() {
                    if i < 250 || full {
                        e["x"] = digest(full, e["x"].as_str().unwrap()).into();
                        out.push(e);
                    } else if e["t"] != "run" {
                        rest = digest(false, &format!("{rest}{e}"));
                    }
                }
                if !rest.is_empty() {
                    out.push(json!({"t": "rest", "x": rest, "e": "", "c": ""}));
                }
                out
            };
            let ev = short(std::mem::take(&mut rec.borrow_mut().ev));
            let told = std::mem::take(&mut *insp.ev.borrow_mut());
            let whole = told.len() <= 250 || full;
            let told = if whole { short(told) } else { short(settled(told)) };
            let logs = match &r {
                Ok(x) => x.logs().len(),
                Err(_) => 0,
            };
            counted &= whole && r.is_ok();
            (json!({"class": c, "out": digest(full, &x), "db": digest(full, &database(e.db())), "ev": ev, "told": told, "logs": logs}), changed)
        };
        let (mut p, ps) = one(&mut plain, &pr, &pi);
        let (mut j, js) = one(&mut jit, &jr, &ji);
        // Where the changes went to the database at once, they are compared there.
        let both = ps.is_some() && js.is_some();
        p["state"] = if both { digest(full, &ps.unwrap()).into() } else { "".into() };
        j["state"] = if both { digest(full, &js.unwrap()).into() } else { "".into() };
        let logs = p["logs"].clone();
        txs.push(json!({"plain": p, "jit": j, "have": have, "inspect": t.inspect, "counted": counted, "logs": logs}));
    }
    drop(jit);
    let strict = matches!(w.mode, Mode::Map);
    let known = matches!(w.mode, Mode::Map | Mode::Ready);
    json!({"mode": format!("{:?}", w.mode), "fork": format!("{:?}", w.fork), "probed": probed, "strict": strict, "known": known, "txs": txs})
}
