//! Runs one scenario against a real `JitBackend`.
use crate::{gate, scen::*};
use revm_bytecode::Bytecode;
use revm_context_interface::DummyHost;
use revm_interpreter::{CallInput, InputsImpl, Interpreter, InterpreterAction, SharedMemory, interpreter::ExtBytecode};
use revm_primitives::{Address, B256, Bytes, U256, hardfork::SpecId, hex, keccak256};
use revmc_llvm::{control, exec};
use revmc_runtime::{
    eyre,
    runtime::{
        AotRequest, ArtifactKey, ArtifactManifest, ArtifactStore, CompilationKind, CompiledProgram, InterpretReason, JitBackend, JitMode, LookupDecision,
        LookupRequest, ProgramKind, RuntimeArtifactStore, RuntimeCacheKey, RuntimeConfig, RuntimeTuning, StoredArtifact,
    },
};
use serde_json::{Value, json};
use std::{
    collections::{BTreeMap, HashSet},
    sync::{
        Arc, Condvar, Mutex, Weak,
        atomic::{AtomicBool, AtomicUsize, Ordering},
    },
    time::{Duration, Instant},
};

pub const UNIT: usize = 4096;
const GAS: u64 = 100_000;

pub fn spec(fork: &str) -> SpecId {
    if fork == "h" { SpecId::HOMESTEAD } else { SpecId::CANCUN }
}

/// Returns `code`, after an EXP whose price depends on the fork.
pub fn bytecode(k: &Key, maxlen: usize) -> Vec<u8> {
    if k.code == 0 {
        return vec![];
    }
    let mut v = vec![0x60, k.code, 0x61, 0x01, 0x00, 0x60, 2, 0x0a, 0x50, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3];
    if k.big {
        v.resize(maxlen + 1, 0);
    } else if k.code % 2 == 0 && maxlen > v.len() {
        // As long as allowed.
        v.resize(maxlen, 0);
    }
    v
}

/// What a program turns out to be when it is run: (code, fork).
pub fn identify(p: &CompiledProgram) -> (i64, String) {
    let mem = SharedMemory::new();
    let inputs = InputsImpl {
        target_address: Address::ZERO,
        bytecode_address: Some(Address::ZERO),
        caller_address: Address::ZERO,
        input: CallInput::Bytes(Bytes::new()),
        call_value: U256::ZERO,
    };
    let sp = p.key.spec_id;
    let mut i = Interpreter::new(mem, ExtBytecode::new(Bytecode::new_legacy(Bytes::from_static(&[0]))), inputs, false, sp, GAS);
    let mut h = DummyHost::new(sp);
    let a = unsafe { p.func.call_with_interpreter(&mut i, &mut h) };
    let InterpreterAction::Return(r) = a else { return (-1, "?".into()) };
    let code = if r.output.len() == 32 { r.output[31] as i64 } else { -1 };
    let used = GAS - r.gas.remaining();
    // 6 PUSH1 + PUSH2 + POP + MSTORE + memory word + EXP.
    let base = 5 * 3 + 3 + 2 + 3 + 3 + 10;
    let fork = match used - base.min(used) {
        20 => "h",
        100 => "c",
        _ => "?",
    };
    (code, format!("{fork}"))
}

/// The artifact store under test, with injectable errors.
pub struct Store {
    pub inner: RuntimeArtifactStore,
    pub faults: Mutex<HashSet<String>>,
}

impl Store {
    fn check(&self, f: &str) -> eyre::Result<()> {
        if self.faults.lock().unwrap().contains(f) { Err(eyre::eyre!("injected {f} error")) } else { Ok(()) }
    }
}

impl ArtifactStore for Store {
    fn load_all(&self) -> eyre::Result<Vec<(ArtifactKey, StoredArtifact)>> {
        self.check("load_all")?;
        self.inner.load_all()
    }
    fn load(&self, key: &ArtifactKey) -> eyre::Result<Option<StoredArtifact>> {
        self.check("load")?;
        if self.check("gone").is_err() {
            return Ok(None);
        }
        self.inner.load(key)
    }
    fn store(&self, key: &ArtifactKey, manifest: &ArtifactManifest, dylib_bytes: &[u8]) -> eyre::Result<()> {
        self.check("store")?;
        if self.check("bad").is_err() {
            // What the linker left cannot be loaded.
            let junk = b"not a library";
            let mut m = manifest.clone();
            m.artifact_len = junk.len();
            m.content_hash = keccak256(junk).0;
            return self.inner.store(key, &m, junk);
        }
        self.inner.store(key, manifest, dylib_bytes)
    }
    fn delete(&self, key: &ArtifactKey) -> eyre::Result<()> {
        self.inner.delete(key)
    }
    fn clear(&self) -> eyre::Result<()> {
        self.check("clear")?;
        self.inner.clear()
    }
}

struct Log {
    t0: Instant,
    v: Mutex<Vec<Value>>,
}

impl Log {
    fn put(&self, mut e: Value) {
        let mut v = self.v.lock().unwrap();
        e["t"] = json!(self.t0.elapsed().as_millis() as u64);
        v.push(e);
    }
}

struct Shared {
    log: Log,
    /// Programs seen, in order; the weak handles keep their addresses from being reused.
    pids: Mutex<Vec<Weak<CompiledProgram>>>,
    idents: Mutex<BTreeMap<usize, (i64, String)>>,
    open: Mutex<BTreeMap<usize, String>>,
    opens: Condvar,
    cb_hold: AtomicBool,
    cb_in: AtomicUsize,
    cbs: AtomicUsize,
    cb_lock: Mutex<()>,
    cb_cv: Condvar,
    hashes: Vec<(String, SpecId)>,
    nkeys: usize,
}

impl Shared {
    fn pid(&self, p: &Arc<CompiledProgram>) -> usize {
        let mut v = self.pids.lock().unwrap();
        let w = Arc::downgrade(p);
        match v.iter().position(|x| x.ptr_eq(&w)) {
            Some(n) => n + 1,
            None => {
                v.push(w);
                v.len()
            }
        }
    }
    /// [pid, code, fork, kind, key]: what it is, and what it says it is.
    fn describe(&self, p: &Arc<CompiledProgram>) -> Value {
        let live = if p.kind == ProgramKind::Jit { control::is_live(unsafe { std::mem::transmute::<revmc_context::EvmCompilerFn, usize>(p.func) }) } else { true };
        let pid = self.pid(p);
        let id = if live { identify(p) } else { (-2, "freed".into()) };
        self.idents.lock().unwrap().insert(pid, id.clone());
        json!({"pid": pid, "code": id.0, "fork": id.1, "kind": if p.kind == ProgramKind::Jit { "jit" } else { "aot" }, "key": self.key_of(&p.key), "live": live})
    }
    fn key_of(&self, k: &RuntimeCacheKey) -> usize {
        let h = format!("{:x}", k.code_hash);
        self.hashes.iter().position(|(x, s)| *x == h && *s == k.spec_id).map(|n| n + 1).unwrap_or(0)
    }
    fn decision(&self, d: &LookupDecision) -> Value {
        match d {
            LookupDecision::Compiled(p) => json!({"d": "compiled", "p": self.describe(p)}),
            LookupDecision::Interpret(r) => json!({"d": match r {
                InterpretReason::Disabled => "disabled",
                InterpretReason::Ineligible => "ineligible",
                InterpretReason::NotReady => "notready",
                InterpretReason::JitFailed => "failed",
            }, "p": nop()}),
        }
    }
}

fn nop() -> Value {
    json!({"pid": 0, "code": 0, "fork": "", "kind": "", "key": 0, "live": true})
}

pub struct World<'a> {
    s: &'a Scenario,
    sh: Arc<Shared>,
    slow: u64,
    /// Something did not settle in time.
    late: bool,
    store: Option<Arc<Store>>,
    backend: Option<JitBackend>,
    held: Vec<(usize, Arc<CompiledProgram>)>,
    next: usize,
    /// Handles returned by finished lookups that asked to be kept.
    kept: Arc<Mutex<Vec<(usize, Arc<CompiledProgram>)>>>,
    released: usize,
    cleared: bool,
    live0: usize,
    may_start: bool,
    ups: usize,
    /// Worker threads of runtimes shut down before.
    old: HashSet<u64>,
}

fn live_now() -> usize {
    control::COMMITTED.load(Ordering::SeqCst) - control::FREED.load(Ordering::SeqCst)
}

impl<'a> World<'a> {
    fn req(&self, k: usize) -> LookupRequest {
        let key = &self.s.keys[k - 1];
        let code = bytecode(key, self.s.cfg.maxlen);
        LookupRequest { key: self.rkey(k), code: Bytes::from(code) }
    }

    fn rkey(&self, k: usize) -> RuntimeCacheKey {
        let key = &self.s.keys[k - 1];
        let code = bytecode(key, self.s.cfg.maxlen);
        RuntimeCacheKey { code_hash: if code.is_empty() { B256::with_last_byte(k as u8) } else { keccak256(&code) }, spec_id: spec(&key.fork) }
    }

    fn up(&mut self) {
        let c = &self.s.cfg;
        self.may_start = c.enabled || c.blocking;
        self.ups += 1;
        self.old = threads().into_iter().filter(|(_, n)| n.starts_with("revmc-")).map(|(t, _)| t).collect();
        self.released = 0;
        self.sh.cbs.store(0, Ordering::SeqCst);
        let sh = self.sh.clone();
        let config = RuntimeConfig {
            enabled: c.enabled,
            blocking: c.blocking,
            aot: c.aot,
            store: self.store.clone().map(|s| s as Arc<dyn ArtifactStore>),
            jit_mode: if c.oop { JitMode::OutOfProcess } else { JitMode::InProcess },
            tuning: RuntimeTuning {
                channel_capacity: c.chan,
                max_events_per_drain: c.drain,
                event_drain_interval: Duration::from_millis(1),
                shutdown_timeout: Duration::from_millis(c.shutdown),
                jit_hot_threshold: c.thr,
                jit_max_bytecode_len: c.maxlen,
                jit_max_pending_jobs: c.pend,
                jit_worker_count: c.workers,
                jit_timeout: Duration::from_millis(c.timeout),
                jit_worker_queue_capacity: c.qcap,
                resident_code_cache_bytes: if c.budget < 0 { 0 } else { c.budget as usize * UNIT + 1 },
                idle_evict_duration: (c.idle > 0).then(|| Duration::from_millis(c.idle)),
                eviction_sweep_interval: Duration::from_millis(c.sweep),
                compiler_recycle_threshold: c.recycle,
                ..Default::default()
            },
            on_compilation: Some(Arc::new(move |ev| {
                let mut g = sh.cb_lock.lock().unwrap();
                sh.log.put(json!({"e": "cb", "k": sh.key_of(&RuntimeCacheKey { code_hash: ev.code_hash, spec_id: ev.spec_id }),
                    "kind": if ev.kind == CompilationKind::Jit { "jit" } else { "aot" }, "ok": ev.success, "hold": sh.cb_hold.load(Ordering::SeqCst)}));
                sh.cbs.fetch_add(1, Ordering::SeqCst);
                sh.cb_in.fetch_add(1, Ordering::SeqCst);
                while sh.cb_hold.load(Ordering::SeqCst) {
                    g = sh.cb_cv.wait(g).unwrap();
                }
                drop(g);
                sh.cb_in.fetch_sub(1, Ordering::SeqCst);
            })),
            thread_name: format!("rb-{}", self.ups),
            ..Default::default()
        };
        self.sh.log.put(json!({"e": "call", "id": self.next, "op": "up", "k": 0, "ks": [], "on": false, "w": ""}));
        let b = JitBackend::new(config);
        let ok = b.is_ok();
        self.sh.log.put(json!({"e": "ret", "id": self.next, "op": "up", "d": if ok { "ok" } else { "err" }, "p": nop(), "hold": false}));
        self.next += 1;
        self.backend = b.ok();
    }

    /// Starts an API call on its own thread; waits up to `wait` for it to return.
    fn call(&mut self, op: &Op, wait: Duration) {
        let Some(b) = self.backend.clone() else { return };
        let id = self.next;
        self.next += 1;
        let sh = self.sh.clone();
        let kept = self.kept.clone();
        let name = op.op.clone();
        let k = op.k;
        let req = (k > 0).then(|| self.req(k));
        let rkey = (k > 0).then(|| self.rkey(k));
        let aots: Vec<AotRequest> = op.ks.iter().map(|&k| {
            let r = self.req(k);
            AotRequest { code_hash: r.key.code_hash, code: r.code, spec_id: r.key.spec_id }
        }).collect();
        let (hold, on, w) = (op.hold, op.on, op.w.clone());
        self.may_start |= matches!(name.as_str(), "jit" | "sync" | "aot" | "block") || (name == "enable" && on);
        sh.open.lock().unwrap().insert(id, name.clone());
        sh.log.put(json!({"e": "call", "id": id, "op": name, "k": k, "ks": op.ks, "on": on, "w": w}));
        std::thread::Builder::new()
            .stack_size(1 << 19)
            .spawn(move || {
                let mut d = json!({"d": "ok", "p": nop()});
                match name.as_str() {
                    "lookup" | "block" => {
                        let r = if name == "lookup" { b.lookup(req.unwrap()) } else { b.lookup_blocking(req.unwrap()) };
                        d = sh.decision(&r);
                        if let (LookupDecision::Compiled(p), true) = (&r, hold) {
                            kept.lock().unwrap().push((sh.pid(p), p.clone()));
                            d["hold"] = json!(true);
                        }
                    }
                    "get" => {
                        let r = b.get_compiled(rkey.unwrap().code_hash, rkey.unwrap().spec_id);
                        d = match &r {
                            Some(p) => json!({"d": "compiled", "p": sh.describe(p)}),
                            None => json!({"d": "none", "p": nop()}),
                        };
                    }
                    "jit" => b.compile_jit(req.unwrap()),
                    "sync" => {
                        if b.compile_jit_sync(req.unwrap()).is_err() {
                            d["d"] = json!("err");
                        }
                    }
                    "aot" => b.prepare_aot_batch(aots),
                    "clear" => match w.as_str() {
                        "res" => b.clear_resident(),
                        "per" => b.clear_persisted(),
                        _ => b.clear_all(),
                    },
                    "enable" => {
                        if b.set_enabled(on).is_err() {
                            d["d"] = json!("err");
                        }
                    }
                    "pause" => b.pause(),
                    "resume" => b.resume(),
                    "ispaused" => d["d"] = json!(if b.is_paused() { "yes" } else { "no" }),
                    x => panic!("unknown op {x}"),
                }
                d["e"] = json!("ret");
                d["id"] = json!(id);
                d["op"] = json!(name);
                if d.get("hold").is_none() {
                    d["hold"] = json!(false);
                }
                drop(b);
                sh.log.put(d);
                sh.open.lock().unwrap().remove(&id);
                sh.opens.notify_all();
            })
            .unwrap();
        self.wait_op(id, wait);
    }

    fn wait_op(&self, id: usize, wait: Duration) {
        let end = Instant::now() + wait;
        let mut g = self.sh.open.lock().unwrap();
        while g.contains_key(&id) {
            let now = Instant::now();
            if now >= end {
                return;
            }
            g = self.sh.opens.wait_timeout(g, end - now).unwrap().0;
        }
    }

    fn open(&self) -> Vec<usize> {
        self.sh.open.lock().unwrap().keys().copied().collect()
    }

    /// Two round trips through the backend thread.
    fn barrier(&self, lim: Duration) -> bool {
        let Some(b) = self.backend.clone() else { return true };
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            for _ in 0..2 {
                let _ = b.compile_jit_sync(LookupRequest { key: RuntimeCacheKey { code_hash: B256::ZERO, spec_id: SpecId::CANCUN }, code: Bytes::new() });
            }
            drop(b);
            let _ = tx.send(());
        });
        rx.recv_timeout(lim).is_ok()
    }

    fn started(&self) -> bool {
        // A thread that was just started may not have its name yet.
        self.backend.is_some() && (self.may_start || (0..if self.cleared { 10 } else { 1 }).any(|n| {
            if n > 0 {
                std::thread::sleep(Duration::from_millis(1));
            }
            thread_exists(&format!("rb-{}", self.ups))
        }))
    }

    fn snapshot(&self) -> Value {
        let Some(b) = &self.backend else { return json!({}) };
        let s = b.stats();
        json!({"hits": s.lookup_hits, "misses": s.lookup_misses, "dropped": s.events_dropped, "cdropped": s.commands_dropped, "resident": s.resident_entries,
            "evq": s.events_queued, "cmdq": s.command_queue_len, "pending": s.pending_jobs, "evict": s.evictions, "disp": s.compilations_dispatched,
            "succ": s.compilations_succeeded, "fail": s.compilations_failed, "bytes": s.jit_total_bytes()})
    }

    fn patience(&self, ms: u64) -> Duration {
        Duration::from_millis(if self.late { 250 } else { ms } * self.slow)
    }

    /// Waits until nothing moves any more, then records everything there is to see.
    fn quiet(&mut self) {
        if self.sh.cb_hold.load(Ordering::SeqCst) {
            self.cbgo();
        }
        let lim = Duration::from_millis(500 * self.slow);
        let t = Instant::now();
        let started = self.started();
        let mut alive = true;
        if started && self.backend.is_some() {
            let calm = Duration::from_millis(4 * self.slow);
            let mut last = String::new();
            let mut since = Instant::now();
            let mut barriers = 0;
            loop {
                let s = self.backend.as_ref().unwrap().stats();
                let w = gate::waiting().len() - gate::waiting_on(&self.old).len();
                let expect = (s.pending_jobs as usize).min(self.s.cfg.workers);
                let settled = s.command_queue_len == 0
                    && s.events_queued == 0
                    && (self.s.cfg.oop || w == expect)
                    && (self.s.cfg.oop || s.compilations_dispatched - s.pending_jobs.min(s.compilations_dispatched) == self.released as u64)
                    && self.sh.cb_in.load(Ordering::SeqCst) == 0;
                let now = format!("{settled} {w} {:?} {:?} {} {}", s, self.open(), live_now(), gate::reached());
                if now != last {
                    last = now.clone();
                    since = Instant::now();
                    barriers = 0;
                }
                if t.elapsed() > lim {
                    if std::env::var_os("RTH_DEBUG").is_some() {
                        eprintln!("quiet timed out: {now} w={w} expect={expect} released={} cbs={} cb_in={}", self.released, self.sh.cbs.load(Ordering::SeqCst), self.sh.cb_in.load(Ordering::SeqCst));
                    }
                    self.late = true;
                    break;
                }
                if settled && since.elapsed() >= calm {
                    if barriers >= 1 {
                        break;
                    }
                    if !self.barrier(lim) {
                        alive = false;
                        break;
                    }
                    barriers += 1;
                    continue;
                }
                std::thread::sleep(Duration::from_micros(300));
            }
        } else {
            std::thread::sleep(Duration::from_millis(2 * self.slow));
        }
        self.take_kept();
        let mut res = vec![];
        for k in 1..=self.s.keys.len() {
            let rk = self.rkey(k);
            let p = self.backend.as_ref().and_then(|b| b.get_compiled(rk.code_hash, rk.spec_id));
            res.push(match &p {
                Some(p) => self.sh.describe(p),
                None => nop(),
            });
        }
        let mut stored: Vec<usize> = vec![];
        if let Some(s) = &self.store {
            for (k, a) in s.inner.load_all().unwrap() {
                let ok = a.dylib_path.exists();
                if ok {
                    stored.push(self.sh.key_of(&k.runtime));
                }
            }
            stored.sort();
        }
        let mut stats = self.snapshot();
        let is_paused = self.backend.as_ref().map(|b| b.is_paused()).unwrap_or(false);
        let enabled = self.backend.as_ref().map(|b| b.enabled()).unwrap_or(false);
        if let Some(o) = stats.as_object_mut() {
            let bytes = o.remove("bytes").unwrap().as_u64().unwrap();
            o.insert("units".into(), json!(bytes / UNIT as u64));
        }
        let files = self.files();
        self.sh.log.put(json!({"e": "quiet", "started": started, "alive": alive, "open": self.open(), "res": res, "gates": gate::waiting(), "store": stored,
            "live": live_now() - self.live0, "stats": stats, "paused": is_paused, "enabled": enabled, "files": files}));
    }

    fn files(&self) -> usize {
        // Files the store's directory holds (found through the path of any artifact).
        let Some(s) = &self.store else { return 0 };
        let all = s.inner.load_all().unwrap();
        let Some((_, a)) = all.first() else { return 0 };
        std::fs::read_dir(a.dylib_path.parent().unwrap()).map(|d| d.count()).unwrap_or(0)
    }

    fn take_kept(&mut self) {
        let mut k = self.kept.lock().unwrap();
        self.held.append(&mut k);
    }

    fn cbgo(&mut self) {
        let _g = self.sh.cb_lock.lock().unwrap();
        self.sh.cb_hold.store(false, Ordering::SeqCst);
        self.sh.log.put(json!({"e": "cbgo"}));
        self.sh.cb_cv.notify_all();
    }

    fn rel(&mut self, n: usize, v: &str) {
        // Waits a moment for a compilation to show up.
        let end = Instant::now() + Duration::from_millis(20 * self.slow);
        let w = loop {
            let w = gate::waiting();
            if !w.is_empty() {
                break w;
            }
            if Instant::now() > end || self.backend.is_none() {
                return;
            }
            if let Some(b) = &self.backend {
                let s = b.stats();
                if s.pending_jobs == 0 && s.events_queued == 0 && s.command_queue_len == 0 && self.sh.cb_in.load(Ordering::SeqCst) == 0 {
                    std::thread::sleep(Duration::from_millis(2));
                    if gate::waiting().is_empty() {
                        return;
                    }
                }
            }
            std::thread::sleep(Duration::from_micros(300));
        };
        let g = w[n % w.len()];
        self.sh.log.put(json!({"e": "rel", "b": g, "v": v}));
        self.release(g, v);
    }

    fn release(&mut self, g: usize, v: &str) {
        if !gate::waiting_on(&self.old).contains(&g) {
            self.released += 1;
        }
        gate::release(g, v);
    }

    fn release_all(&mut self, v: &str, lim: Duration) {
        let end = Instant::now() + lim;
        loop {
            for g in gate::waiting() {
                self.sh.log.put(json!({"e": "rel", "b": g, "v": v}));
                self.release(g, v);
            }
            let idle = match &self.backend {
                Some(b) => {
                    let s = b.stats();
                    s.pending_jobs == 0 && s.events_queued == 0 && s.command_queue_len == 0
                }
                None => true,
            };
            if (idle && self.open().is_empty() && gate::waiting().is_empty()) || Instant::now() > end {
                return;
            }
            std::thread::sleep(Duration::from_micros(500));
        }
    }

    fn down(&mut self, hot: bool) -> bool {
        if self.backend.is_none() {
            return true;
        }
        if self.sh.cb_hold.load(Ordering::SeqCst) {
            self.cbgo();
        }
        if !hot || !self.open().is_empty() {
            self.release_all("ok", self.patience(2000));
        }
        if !self.open().is_empty() {
            return false;
        }
        self.take_kept();
        let id = self.next;
        self.next += 1;
        self.sh.log.put(json!({"e": "call", "id": id, "op": "down", "k": 0, "ks": [], "on": hot, "w": ""}));
        let b = self.backend.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            drop(b);
            let _ = tx.send(());
        });
        let lim = Duration::from_millis(self.s.cfg.shutdown + 2000 * self.slow);
        if rx.recv_timeout(lim).is_err() {
            return false;
        }
        self.sh.log.put(json!({"e": "ret", "id": id, "op": "down", "d": "ok", "p": nop(), "hold": false}));
        true
    }

    fn step(&mut self, op: &Op) -> bool {
        let quickly = Duration::from_millis(if self.sh.cb_hold.load(Ordering::SeqCst) { 15 } else { 1000 } * self.slow);
        match op.op.as_str() {
            "lookup" | "get" | "jit" | "aot" | "enable" | "pause" | "resume" | "ispaused" | "clear" => {
                if op.op == "clear" {
                    self.cleared = true;
                }
                // In blocking mode a lookup waits for its compilation.
                let w = if op.op == "lookup" && self.s.cfg.blocking { Duration::from_millis(3 * self.slow) } else { quickly };
                // A call to a runtime that was never started may have nobody to wait for.
                let w = if op.op == "clear" && !self.started() { w.min(Duration::from_millis(50 * self.slow)) } else { w };
                self.call(op, w);
            }
            "sync" | "block" => self.call(op, Duration::from_millis(op.ms)),
            "par" => {
                for o in &op.ops {
                    self.cleared |= o.op == "clear";
                    self.call(o, Duration::ZERO);
                }
                for id in self.open() {
                    let n = self.sh.open.lock().unwrap().get(&id).cloned().unwrap_or_default();
                    if n != "sync" && n != "block" && !(n == "lookup" && self.s.cfg.blocking) {
                        self.wait_op(id, quickly);
                    }
                }
            }
            "rel" => self.rel(op.n, if op.v.is_empty() { "ok" } else { &op.v }),
            "relall" => self.release_all("ok", Duration::from_millis(1000 * self.slow)),
            "quiet" => self.quiet(),
            "sleep" => std::thread::sleep(Duration::from_millis(op.ms * self.slow)),
            "until_evicted" => {
                // Waits until nothing is resident (idle eviction).
                let end = Instant::now() + Duration::from_millis(2000 * self.slow);
                while Instant::now() < end && self.backend.as_ref().is_some_and(|b| b.stats().resident_entries > 0) {
                    std::thread::sleep(Duration::from_millis(1));
                }
                self.sh.log.put(json!({"e": "evicted"}));
            }
            "cbhold" => {
                self.sh.log.put(json!({"e": "cbhold"}));
                self.sh.cb_hold.store(true, Ordering::SeqCst);
            }
            "cbgo" => {
                if self.sh.cb_hold.load(Ordering::SeqCst) {
                    self.cbgo();
                }
            }
            "run" => {
                self.take_kept();
                if !self.held.is_empty() {
                    let (_, p) = &self.held[op.n % self.held.len()];
                    let d = self.sh.describe(p);
                    self.sh.log.put(json!({"e": "run", "p": d}));
                }
            }
            "drop" => {
                self.take_kept();
                if !self.held.is_empty() {
                    let n = op.n % self.held.len();
                    let (pid, p) = self.held.swap_remove(n);
                    self.sh.log.put(json!({"e": "drop", "pid": pid}));
                    drop(p);
                }
            }
            "sfault" => {
                if let Some(s) = &self.store {
                    let mut f = s.faults.lock().unwrap();
                    self.sh.log.put(json!({"e": "sfault", "w": op.w, "on": op.on}));
                    if op.on {
                        f.insert(op.w.clone());
                    } else {
                        f.remove(&op.w);
                    }
                }
            }
            "down" => return self.down(op.on),
            "up" => {
                if self.backend.is_none() {
                    self.up();
                }
            }
            x => panic!("unknown op {x}"),
        }
        true
    }
}

fn threads() -> Vec<(u64, String)> {
    let Ok(d) = std::fs::read_dir("/proc/self/task") else { return vec![] };
    d.flatten().filter_map(|e| Some((e.file_name().to_str()?.parse().ok()?, std::fs::read_to_string(e.path().join("comm")).ok()?.trim_end().to_string()))).collect()
}

fn thread_exists(name: &str) -> bool {
    threads().iter().any(|(_, n)| n == name)
}

pub fn run(s: &Scenario, slow: u64) -> Value {
    exec::FIXED_BYTES.store(UNIT, Ordering::SeqCst);
    // The previous scenario's threads must be gone.
    let t = Instant::now();
    while ((1..20).any(|n| thread_exists(&format!("rb-{n}"))) || (0..4).any(|n| thread_exists(&format!("revmc-{n:02}")))) && t.elapsed() < Duration::from_secs(5) {
        std::thread::sleep(Duration::from_millis(1));
    }
    let hashes = s
        .keys
        .iter()
        .enumerate()
        .map(|(n, k)| {
            let c = bytecode(k, s.cfg.maxlen);
            (format!("{:x}", if c.is_empty() { B256::with_last_byte(n as u8 + 1) } else { keccak256(&c) }), spec(&k.fork))
        })
        .collect::<Vec<_>>();
    let sh = Arc::new(Shared {
        log: Log { t0: Instant::now(), v: Mutex::new(vec![]) },
        pids: Default::default(),
        idents: Default::default(),
        open: Default::default(),
        opens: Condvar::new(),
        cb_hold: AtomicBool::new(false),
        cb_in: AtomicUsize::new(0),
        cbs: AtomicUsize::new(0),
        cb_lock: Mutex::new(()),
        cb_cv: Condvar::new(),
        hashes,
        nkeys: s.keys.len(),
    });
    let _ = sh.nkeys;
    {
        let sh = sh.clone();
        gate::reset(Some(Arc::new(move |n, name| {
            // Which key is being compiled: the hash and version its symbol is named after.
            let k = sh.hashes.iter().position(|(h, sp)| name.contains(&format!("{h}_{sp:?}"))).map(|n| n + 1).unwrap_or(0);
            sh.log.put(json!({"e": "build", "b": n, "k": k}));
        })));
    }
    let store = s.cfg.store.then(|| Arc::new(Store { inner: RuntimeArtifactStore::new().unwrap(), faults: Default::default() }));
    let mut w = World {
        s,
        sh: sh.clone(),
        slow,
        late: false,
        store,
        backend: None,
        held: vec![],
        next: 1,
        kept: Default::default(),
        released: 0,
        cleared: false,
        live0: live_now(),
        may_start: false,
        ups: 0,
        old: HashSet::new(),
    };
    w.up();
    let mut stuck = false;
    for op in &s.ops {
        if !w.step(op) {
            stuck = true;
            break;
        }
        // What follows a state that does not settle would take long and tell little.
        if w.late {
            break;
        }
    }
    // Wind down: everything compiles, everyone is answered, everything is released.
    if !stuck {
        if w.sh.cb_hold.load(Ordering::SeqCst) {
            w.cbgo();
        }
        w.release_all("ok", w.patience(3000));
        if w.backend.is_some() {
            w.quiet();
        }
        stuck = !w.open().is_empty() || !w.down(false);
    }
    w.take_kept();
    if !stuck {
        for n in 0..w.held.len() {
            let d = w.sh.describe(&w.held[n].1);
            w.sh.log.put(json!({"e": "run", "p": d}));
        }
        for (pid, p) in std::mem::take(&mut w.held) {
            w.sh.log.put(json!({"e": "drop", "pid": pid}));
            drop(p);
        }
        let end = Instant::now() + Duration::from_millis(2000 * slow);
        while live_now() != w.live0 && Instant::now() < end {
            std::thread::sleep(Duration::from_millis(1));
        }
        w.sh.log.put(json!({"e": "end", "live": live_now() as i64 - w.live0 as i64, "open": w.open(), "stuck": false}));
    } else {
        w.sh.log.put(json!({"e": "end", "live": 0, "open": w.open(), "stuck": true}));
    }
    gate::reset(None);
    let tr = sh.log.v.lock().unwrap().clone();
    json!({"id": s.id, "cfg": s.cfg, "keys": s.keys, "trace": tr, "stuck": stuck})
}

#[allow(dead_code)]
fn hexes(x: &[u8]) -> String {
    hex::encode(x)
}
