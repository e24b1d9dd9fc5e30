//! Replays one session (a JSON file) against a runtime that compiles in a helper process, and
//! prints what was seen after each operation. The helper is this program again.
use revm_bytecode::Bytecode;
use revm_context_interface::{
    DummyHost,
    cfg::{GasParams, gas_params::GasId},
};
use revm_interpreter::{CallInput, InputsImpl, Interpreter, InterpreterAction, SharedMemory, interpreter::ExtBytecode};
use revm_primitives::{Address, Bytes, U256, hardfork::SpecId, keccak256};
use revmc_runtime::runtime::{CompiledProgram, JitBackend, JitMode, LookupDecision, LookupRequest, RuntimeCacheKey, RuntimeConfig, RuntimeTuning};
use serde::Deserialize;
use serde_json::{Value, json};
use std::{
    collections::{BTreeMap, BTreeSet},
    path::{Path, PathBuf},
    sync::{Arc, Mutex},
    time::{Duration, Instant},
};

const KEYS: usize = 3;
const GAS: u64 = 10_000_000;

#[derive(Deserialize)]
struct Session {
    cfg: Cfg,
    ops: Vec<Op>,
}
#[derive(Deserialize)]
struct Cfg {
    w: usize,
    helper: String,
    /// Milliseconds a job may take.
    timeout: u64,
    /// Bytes of code, per key.
    size: usize,
    mem: u64,
    cpus: usize,
    /// What a byte of an EXP exponent costs; 0: as the fork says.
    exp: u64,
    blocking: bool,
}
#[derive(Deserialize, Clone)]
struct Op {
    op: String,
    k: usize,
    v: String,
    exp: Value,
}

fn fork(k: usize) -> SpecId {
    if k == 2 { SpecId::HOMESTEAD } else { SpecId::CANCUN }
}

fn code(k: usize, size: usize) -> Vec<u8> {
    // Keys 1 and 2 are the same code for different forks.
    let id = if k == 3 { 7 } else { 5 };
    let mut v = vec![0x60, id, 0x61, 0x01, 0x00, 0x60, 2, 0x0a, 0x50, 0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3];
    v.resize(v.len().max(size), 0);
    v
}

/// Does the program do what the code of key `k` does at the prices of its fork or schedule?
fn right(p: &CompiledProgram, k: usize, exp: u64) -> bool {
    let inputs = InputsImpl {
        target_address: Address::ZERO,
        bytecode_address: Some(Address::ZERO),
        caller_address: Address::ZERO,
        input: CallInput::Bytes(Bytes::new()),
        call_value: U256::ZERO,
    };
    let sp = fork(k);
    let mut i = Interpreter::new(SharedMemory::new(), ExtBytecode::new(Bytecode::new_legacy(Bytes::from_static(&[0]))), inputs, false, sp, GAS);
    let mut h = DummyHost::new(sp);
    let mut gp = GasParams::new_spec(sp);
    if exp != 0 {
        gp.override_gas([(GasId::exp_byte_gas(), exp)]);
    }
    let a = unsafe { p.func.call_with_interpreter(&mut i, &mut h) };
    let InterpreterAction::Return(r) = a else { return false };
    // The schedule is folded into the code when it is compiled.
    let used = GAS - r.gas.remaining();
    let byte = gp.get(GasId::exp_byte_gas());
    r.result.is_ok() && r.output.len() == 32 && r.output[31] == if k == 3 { 7 } else { 5 } && used == 5 * 3 + 3 + 2 + 3 + 3 + 10 + 2 * byte && p.key.spec_id == sp
}

struct World {
    s: Session,
    b: Option<JitBackend>,
    dir: PathBuf,
    open: Arc<Mutex<BTreeMap<usize, usize>>>,
    n: usize,
    slow: u64,
    wrong: bool,
    tardy: bool,
    limits: bool,
    checked: BTreeSet<usize>,
    released: BTreeSet<String>,
    odd: Arc<Mutex<bool>>,
}

impl World {
    fn req(&self, k: usize) -> LookupRequest {
        let c = code(k, self.s.cfg.size);
        LookupRequest { key: RuntimeCacheKey { code_hash: keccak256(&c), spec_id: fork(k) }, code: c.into() }
    }

    /// Calls that must not wait for anything.
    fn prompt<T>(&mut self, f: impl FnOnce(&JitBackend) -> T) -> T {
        let b = self.b.clone().unwrap();
        let t = Instant::now();
        let r = f(&b);
        if t.elapsed() > Duration::from_millis(400 * self.slow) {
            self.tardy = true;
        }
        r
    }

    /// Gates reached and not released: file stem to key.
    fn gates(&self) -> BTreeMap<String, usize> {
        let hash = |k: usize| format!("{:x}_{:?}", self.req(k).key.code_hash, fork(k));
        let mut out = BTreeMap::new();
        for e in std::fs::read_dir(&self.dir).unwrap().flatten() {
            let name = e.file_name().into_string().unwrap();
            let Some(stem) = name.strip_suffix(".wait") else { continue };
            let pid = stem.split('.').next().unwrap();
            if self.released.contains(stem) || !alive(pid) {
                continue;
            }
            let sym = std::fs::read_to_string(e.path()).unwrap_or_default();
            let k = (1..=KEYS).find(|k| sym.contains(&hash(*k))).unwrap_or(0);
            out.insert(stem.to_string(), k);
        }
        out
    }

    fn seen(&mut self) -> Value {
        let gates = self.gates();
        let mut g = vec![0; KEYS];
        for k in gates.values() {
            if *k > 0 {
                g[k - 1] += 1;
            }
        }
        let hs = helpers();
        if self.s.cfg.helper == "self" {
            for (pid, _) in &hs {
                if self.checked.insert(*pid as usize) && !limits_ok(*pid, &self.s.cfg) {
                    self.limits = true;
                }
            }
        }
        let mut res = vec![];
        for k in 1..=KEYS {
            let r = self.req(k);
            let p = self.prompt(|b| b.get_compiled(r.key.code_hash, r.key.spec_id));
            if let Some(p) = &p {
                self.wrong |= !right(p, k, self.s.cfg.exp);
            }
            res.push(p.is_some());
        }
        if !self.s.cfg.blocking {
            let k = 1 + self.n % KEYS;
            let r = self.req(k);
            if let LookupDecision::Compiled(p) = self.prompt(|b| b.lookup(r)) {
                self.wrong |= !right(&p, k, self.s.cfg.exp);
            }
            self.n += 1;
        }
        let st = self.b.as_ref().unwrap().stats();
        let paused = self.prompt(|b| b.is_paused());
        let open = self.open.lock().unwrap();
        let me = self.s.cfg.helper == "self";
        json!({
            "open": (1..=KEYS).map(|k| open.values().filter(|x| **x == k).count()).collect::<Vec<_>>(),
            "gates": g, "res": res,
            "live": if me { hs.len() } else { 0 },
            "stopped": if me { hs.iter().filter(|x| x.1 == 'T').count() } else { 0 },
            "paused": paused,
            "succ": st.compilations_succeeded, "fail": st.compilations_failed, "disc": st.compilations_dispatched - st.compilations_succeeded - st.compilations_failed - st.pending_jobs,
        })
    }

    fn release(&mut self, stem: &str, v: &str) {
        self.released.insert(stem.to_string());
        let t = self.dir.join(format!("{stem}.tm"));
        std::fs::write(&t, v).unwrap();
        std::fs::rename(&t, self.dir.join(format!("{stem}.go"))).unwrap();
    }

    fn start(&mut self, k: usize) {
        let id = self.n + 1000;
        self.n += 1;
        self.open.lock().unwrap().insert(id, k);
        let (b, r, open, odd, exp) = (self.b.clone().unwrap(), self.req(k), self.open.clone(), self.odd.clone(), self.s.cfg.exp);
        let blocking = self.s.cfg.blocking;
        std::thread::spawn(move || {
            if blocking {
                if let LookupDecision::Compiled(p) = b.lookup(r) {
                    if !right(&p, k, exp) {
                        *odd.lock().unwrap() = true;
                    }
                }
            } else {
                let _ = b.compile_jit_sync(r);
            }
            drop(b);
            open.lock().unwrap().remove(&id);
        });
    }

    fn step(&mut self, o: &Op) -> Value {
        let quiet = self.b.as_ref().unwrap().is_paused();
        match o.op.as_str() {
            "req" => self.start(o.k),
            "gate" => {
                if let Some(stem) = self.gates().into_iter().find(|(_, k)| *k == o.k).map(|x| x.0) {
                    self.release(&stem, &o.v);
                }
            }
            "kill" => {
                for (pid, _) in helpers() {
                    unsafe { libc::kill(pid, libc::SIGKILL) };
                }
            }
            "pause" => self.prompt(|b| b.pause()),
            "resume" => self.prompt(|b| b.resume()),
            "clear" => self.prompt(|b| b.clear_resident()),
            "expire" => {}
            "dwell" => std::thread::sleep(Duration::from_millis(self.s.cfg.timeout * 3 / 2)),
            x => panic!("{x}"),
        }
        let quiet = quiet || self.b.as_ref().unwrap().is_paused();
        // Wait for what is expected; then, for a while, for anything that is not.
        let end = Instant::now() + Duration::from_millis(2500 * self.slow + if o.op == "expire" { self.s.cfg.timeout } else { 0 });
        while self.seen() != o.exp && Instant::now() < end {
            std::thread::sleep(Duration::from_millis(3));
        }
        std::thread::sleep(Duration::from_millis(self.slow * if quiet { 120 } else if o.op == "req" { 30 } else { 15 }));
        let seen = self.seen();
        self.wrong |= *self.odd.lock().unwrap();
        json!({"op": o.op, "k": o.k, "v": o.v, "seen": seen, "slow": self.tardy, "wrong": self.wrong, "limits": self.limits})
    }

    /// Everything is resumed and allowed to finish.
    fn finish(&mut self) -> (usize, usize) {
        std::fs::write(self.dir.join("all.tm"), "ok").unwrap();
        std::fs::rename(self.dir.join("all.tm"), self.dir.join("all.go")).unwrap();
        for _ in 0..5 {
            self.prompt(|b| b.resume());
        }
        let end = Instant::now() + Duration::from_millis(4000 * self.slow + self.s.cfg.timeout * 12);
        let hung = loop {
            let n = self.open.lock().unwrap().len();
            if n == 0 || Instant::now() > end {
                break n;
            }
            std::thread::sleep(Duration::from_millis(3));
        };
        if hung > 0 {
            return (hung, 0);
        }
        self.b.take();
        let end = Instant::now() + Duration::from_millis(3000 * self.slow);
        loop {
            let n = helpers().len();
            if n == 0 || Instant::now() > end {
                return (0, n);
            }
            std::thread::sleep(Duration::from_millis(3));
        }
    }
}

fn alive(pid: &str) -> bool {
    stat(pid).is_some_and(|(s, _)| s != 'Z' && s != 'X')
}

/// State and parent.
fn stat(pid: &str) -> Option<(char, i32)> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let mut f = s[s.rfind(')')? + 2..].split(' ');
    Some((f.next()?.chars().next()?, f.next()?.parse().ok()?))
}

/// Living children and their states.
fn helpers() -> Vec<(i32, char)> {
    let me = std::process::id() as i32;
    let mut out = vec![];
    for e in std::fs::read_dir("/proc").unwrap().flatten() {
        let n = e.file_name().into_string().unwrap();
        if let Ok(pid) = n.parse::<i32>() {
            if let Some((s, p)) = stat(&n) {
                if p == me && s != 'Z' && s != 'X' {
                    out.push((pid, s));
                }
            }
        }
    }
    out
}

fn cpus() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1)
}

fn limits_ok(pid: i32, c: &Cfg) -> bool {
    // Before its exec the child is still this program without limits.
    let exe = std::fs::read_link(format!("/proc/{pid}/exe"));
    let (Ok(l), Ok(st), Ok(_)) = (std::fs::read_to_string(format!("/proc/{pid}/limits")), std::fs::read_to_string(format!("/proc/{pid}/status")), exe) else { return true };
    let env = std::fs::read(format!("/proc/{pid}/environ")).unwrap_or_default();
    if !env.windows(16).any(|w| w == b"REVMC_JIT_HELPER") {
        return true;
    }
    let soft = l.lines().find(|x| x.starts_with("Max address space")).and_then(|x| x.split_whitespace().nth(3)).unwrap_or("?").to_string();
    let mask = st.lines().find(|x| x.starts_with("Cpus_allowed:")).and_then(|x| x.split_whitespace().nth(1)).unwrap_or("").to_string();
    let n: u32 = mask.chars().filter_map(|c| c.to_digit(16)).map(|d| d.count_ones()).sum();
    let mem_ok = c.mem == 0 || soft == c.mem.to_string();
    let cpu_ok = if c.cpus == 0 { n as usize >= cpus().min(2) } else { n as usize == c.cpus.min(cpus()) };
    mem_ok && cpu_ok
}

fn script(dir: &Path, text: &str) -> PathBuf {
    use std::os::unix::fs::PermissionsExt;
    let p = dir.join("helper.sh");
    std::fs::write(&p, format!("#!/bin/sh\n{text}\n")).unwrap();
    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
    p
}

fn main() {
    if let Ok(std::ops::ControlFlow::Break(())) = revmc_runtime::runtime::maybe_run_jit_helper() {
        return;
    }
    if std::env::var_os("REVMC_JIT_HELPER").is_some() {
        std::process::exit(1);
    }
    let a: Vec<String> = std::env::args().collect();
    let slow: u64 = a[2].parse().unwrap();
    let mut s: Session = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
    s.cfg.timeout *= slow;
    let tmp = tempfile::tempdir().unwrap();
    let dir = tmp.path().join("gates");
    std::fs::create_dir(&dir).unwrap();
    // SAFETY: nothing else runs yet.
    unsafe { std::env::set_var("REVMC_FAKE_GATE", &dir) };
    let path = match s.cfg.helper.as_str() {
        "missing" => Some(tmp.path().join("nothing-here")),
        "silent" => Some(script(tmp.path(), "exec sleep 600")),
        "deaf" => Some(script(tmp.path(), "exec sleep 600")),
        "exit" => Some(script(tmp.path(), "exit 0")),
        "noise" => Some(script(tmp.path(), "head -c 4096 /dev/zero | tr '\\0' '\\377'; exec sleep 600")),
        _ => None,
    };
    let tuning = RuntimeTuning {
        jit_worker_count: s.cfg.w,
        jit_timeout: Duration::from_millis(s.cfg.timeout),
        jit_hot_threshold: 1_000_000,
        jit_max_bytecode_len: 0,
        jit_helper_memory_limit_bytes: s.cfg.mem,
        jit_helper_cpu_count: s.cfg.cpus,
        event_drain_interval: Duration::from_millis(5),
        shutdown_timeout: Duration::from_secs(5 * slow),
        ..Default::default()
    };
    let mut gas_params = None;
    if s.cfg.exp != 0 {
        let mut gp = GasParams::new_spec(SpecId::CANCUN);
        gp.override_gas([(GasId::exp_byte_gas(), s.cfg.exp)]);
        gas_params = Some(gp);
    }
    let b = JitBackend::new(RuntimeConfig { enabled: true, jit_mode: JitMode::OutOfProcess, jit_helper_path: path, blocking: s.cfg.blocking, gas_params, tuning, ..Default::default() }).unwrap();
    let ops = s.ops.clone();
    let mut w = World {
        s,
        b: Some(b),
        dir,
        open: Default::default(),
        n: 0,
        slow,
        wrong: false,
        tardy: false,
        limits: false,
        checked: Default::default(),
        released: Default::default(),
        odd: Default::default(),
    };
    let mut last = Instant::now();
    for o in &ops {
        let mut e = w.step(o);
        if o.op == "expire" {
            last = Instant::now();
        }
        e["late"] = json!(last.elapsed() > Duration::from_millis(w.s.cfg.timeout * 7 / 10));
        println!("V {e}");
    }
    let (hung, left) = w.finish();
    println!("E {}", json!({"hung": hung, "left": left, "slow": w.tardy}));
    for (pid, _) in helpers() {
        unsafe { libc::kill(-pid, libc::SIGKILL) };
        unsafe { libc::kill(pid, libc::SIGKILL) };
    }
    drop(tmp);
    // Threads may be left behind.
    std::process::exit(0);
}
