//! Replays sessions (generated from Compiler.tla) on one compiler instance and records them.
use crate::{case::*, compile::*, gen_, rng::Rng, run::*};
use revm_primitives::{hex, keccak256};
use revmc_context::EvmCompilerFn;
use serde::{Deserialize, Serialize};
use std::{
    collections::BTreeMap,
    io::{Read, Write},
    os::fd::FromRawFd,
};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Op {
    pub op: String,
    /// Function, name, code, fork, input or value, depending on the operation.
    #[serde(default)]
    pub f: u32,
    #[serde(default)]
    pub name: u32,
    #[serde(default)]
    pub code: u64,
    #[serde(default)]
    pub fork: usize,
    #[serde(default)]
    pub key: String,
    #[serde(default)]
    pub v: i64,
}

#[derive(Deserialize)]
struct Session {
    id: u64,
    seed: u64,
    ops: Vec<Op>,
}

#[derive(Serialize)]
struct Event {
    #[serde(flatten)]
    op: Op,
    ok: bool,
    err: String,
    got: String,
    want: String,
    /// Functions whose code is still in memory.
    live: Vec<u32>,
}

#[derive(Clone)]
struct Fun {
    id: Option<u32>,
    f: Option<EvmCompilerFn>,
    case: Case,
}

/// What an observer can tell, as a digest.
pub fn digest(o: &Obs) -> String {
    let mut o = o.clone();
    for s in &mut o {
        s.why.clear();
        if s.k == "halt" {
            *s = Seg { k: "halt".into(), why: String::new(), gas: 0, rsv: 0, ssp: 0, refund: 0, has_stack: false, stack: vec![], mem: String::new(), out: String::new(), world: None, req: Req::default() };
        }
        if s.k == "revert" {
            s.world = None;
        }
    }
    hex::encode(&keccak256(serde_json::to_vec(&o).unwrap())[..8])
}

/// Runs `f` in a copy of this process, which has compiled nothing yet.
pub fn pristine(f: impl FnOnce() -> String) -> Result<String, String> {
    let mut fds = [0i32; 2];
    assert_eq!(unsafe { libc::pipe(fds.as_mut_ptr()) }, 0);
    match unsafe { libc::fork() } {
        0 => {
            unsafe { libc::close(fds[0]) };
            let s = f();
            let mut w = unsafe { std::fs::File::from_raw_fd(fds[1]) };
            let _ = w.write_all(s.as_bytes());
            drop(w);
            unsafe { libc::_exit(0) }
        }
        pid => {
            assert!(pid > 0, "fork");
            unsafe { libc::close(fds[1]) };
            let mut r = unsafe { std::fs::File::from_raw_fd(fds[0]) };
            let mut s = String::new();
            let _ = r.read_to_string(&mut s);
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            if st == 0 { Ok(s) } else { Err(format!("status {st}")) }
        }
    }
}

/// The case standing for (code, fork) in a session, under the settings it was translated with.
pub fn instance(seed: u64, op: &Op, set: &Config, gp: u64) -> Case {
    let prof = ["C11", "C03", "C05", "C06", "C07", "C09", "C02", "C01"][(op.code % 8) as usize];
    let mut c = gen_::case(prof, seed, op.code);
    c.fork = op.fork;
    c.eip8037 = false;
    c.rsv = 0;
    c.is_static &= c.fork >= 4;
    c.cfg = Config { garbage: c.cfg.garbage, ..set.clone() };
    c.gp = gp_of(c.spec());
    c.custom_gp = gp > 0;
    if gp > 0 {
        // The schedule is the same for every fork.
        c.gp = gp_of(FORKS[13]);
        let mut r = Rng::new(seed, gp);
        let ids = gas_ids();
        for _ in 0..8 {
            let (n, _) = r.pick(&ids);
            if !matches!(*n, "mem_quad" | "call_red" | "stipend") {
                c.gp.insert(n.to_string(), r.below(3000) as u64);
            }
        }
    }
    c
}

pub fn input(c: &Case, n: i64) -> Case {
    let mut x = c.clone();
    let mut r = Rng::new(c.id, n as u64);
    match n {
        0 => {}
        1 => x.gas = r.below(60_000) as u64,
        _ => {
            let mut b = hex::decode(&x.input).unwrap();
            let k = b.len();
            if k > 0 {
                b[r.below(k)] ^= 1 << r.below(8);
            }
            x.input = hex::encode(b);
        }
    }
    x
}

/// A change of settings.
pub fn apply(op: &Op, set: &mut Config, gp: &mut u64) {
    match op.key.as_str() {
        "dedup" => set.dedup = op.v == 1,
        "dse" => set.dse = op.v == 1,
        "single" => set.single_error = op.v == 1,
        "asserts" => set.debug_assert = op.v == 1,
        "inspect" => set.inspect = op.v == 1,
        "opt" => set.opt = op.v as u8,
        "budget" => set.budget = [100_000, 0, 40][op.v as usize],
        "gas" => *gp = op.v as u64,
        x => panic!("setting {x}"),
    }
}

pub fn main(a: &[String]) {
    let all: Vec<Session> = serde_json::from_str(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
    let start: usize = a[1].parse().unwrap();
    let out = std::io::stdout();
    let mut out = out.lock();
    for s in &all[start..] {
        writeln!(out, "S {}", s.id).unwrap();
        out.flush().unwrap();
        session(s, &mut out);
        writeln!(out, "E {}", s.id).unwrap();
    }
    writeln!(out, "D").unwrap();
    out.flush().unwrap();
}

fn session(s: &Session, out: &mut impl Write) {
    let mut k: Option<Compiler> = None;
    let mut set = Config { opt: 2, budget: 100_000, ..Config::default() };
    set.inspect = false;
    let mut gp = 0u64;
    let mut fns: BTreeMap<u32, Fun> = BTreeMap::new();
    let mut objs: Vec<(String, Case)> = vec![];
    for op in &s.ops {
        writeln!(out, "O {}", serde_json::to_string(op).unwrap()).unwrap();
        out.flush().unwrap();
        let mut ev = Event { op: op.clone(), ok: true, err: String::new(), got: String::new(), want: String::new(), live: vec![] };
        let mut res = |r: Result<(), String>| {
            if let Err(e) = r {
                ev.ok = false;
                ev.err = e;
            }
        };
        match op.op.as_str() {
            "new" => {
                let mut c = new_compiler(op.v == 1);
                let mut x = instance(s.seed, &Op { fork: 13, ..Op::default() }, &set, 0);
                x.cfg = set.clone();
                configure(&mut c, &x);
                k = Some(c);
            }
            "set" => {
                let k = k.as_mut().unwrap();
                apply(op, &mut set, &mut gp);
                let mut c = instance(s.seed, &Op { fork: 13, ..Op::default() }, &set, gp);
                c.cfg = set.clone();
                configure(k, &c);
            }
            "translate" => {
                let c = instance(s.seed, op, &set, gp);
                let code = hex::decode(&c.code).unwrap();
                let name = format!("f{}", op.name);
                let want = pristine(|| match compile(&c) {
                    Ok(_) => "ok".into(),
                    Err(e) => e,
                });
                ev.want = want.unwrap_or_else(|e| e);
                let r = k.as_mut().unwrap().translate(&name, &code[..], c.spec());
                let id = r.as_ref().ok().copied();
                res(r.map(|_| ()).map_err(|e| format!("{e}")));
                if id.is_some() {
                    objs.push((name, c.clone()));
                }
                fns.insert(op.f, Fun { id, f: None, case: c });
            }
            "jit" => {
                let f = fns.get_mut(&op.f).unwrap();
                let r = unsafe { k.as_mut().unwrap().jit_function(f.id.unwrap()) };
                f.f = r.as_ref().ok().copied();
                res(r.map(|_| ()).map_err(|e| format!("{e}")));
            }
            "run" => {
                let f = fns[&op.f].clone();
                let c = input(&f.case, op.v);
                ev.want = pristine(|| match compile(&c) {
                    Ok((_k, g)) => digest(&run(&c, Exec::Compiled(g)).unwrap()),
                    Err(e) => format!("compile: {e}"),
                })
                .unwrap_or_else(|e| e);
                // Known now, in case running it ends the process.
                writeln!(out, "W {}", ev.want).unwrap();
                out.flush().unwrap();
                ev.got = digest(&run(&c, Exec::Compiled(f.f.unwrap())).unwrap());
            }
            "object" => {
                let write = |k: &mut Compiler| {
                    let mut b = vec![];
                    k.write_object(&mut b).map(|_| hex::encode(&keccak256(&b)[..8])).map_err(|e| format!("{e}"))
                };
                ev.want = pristine(|| {
                    let mut k = new_compiler(true);
                    for (name, c) in &objs {
                        configure(&mut k, c);
                        if let Err(e) = k.translate(name, &hex::decode(&c.code).unwrap()[..], c.spec()) {
                            return format!("{e}");
                        }
                    }
                    write(&mut k).unwrap_or_else(|e| e)
                })
                .unwrap_or_else(|e| e);
                let r = write(k.as_mut().unwrap());
                ev.got = r.clone().unwrap_or_default();
                res(r.map(|_| ()));
            }
            "free" => {
                let f = fns.get_mut(&op.f).unwrap();
                let id = f.id.unwrap();
                let name = format!("f{}", op.name);
                objs.retain(|x| x.0 != name);
                res(unsafe { k.as_mut().unwrap().free_function(id) }.map_err(|e| format!("{e}")));
            }
            "clear_ir" => {
                objs.clear();
                res(k.as_mut().unwrap().clear_ir().map_err(|e| format!("{e}")));
            }
            "clear" => {
                objs.clear();
                res(unsafe { k.as_mut().unwrap().clear() }.map_err(|e| format!("{e}")));
            }
            "drop" => k = None,
            x => panic!("operation {x}"),
        }
        for (n, f) in &fns {
            if f.f.is_some_and(|f| revmc_llvm::control::is_live(f.into_inner() as usize)) {
                ev.live.push(*n);
            }
        }
        writeln!(out, "V {}", serde_json::to_string(&ev).unwrap()).unwrap();
        out.flush().unwrap();
    }
}
