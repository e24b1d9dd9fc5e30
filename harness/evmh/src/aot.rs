//! Replays sessions (generated from Aot.tla) through object files, the linker and the loader.
use crate::{case::*, compile::*, run::*, sess};
use revm_primitives::hex;
use revmc_codegen::Linker;
use revmc_context::{EvmCompilerFn, RawEvmCompilerFn};
use serde::{Deserialize, Serialize};
use std::{collections::BTreeMap, io::Write, path::PathBuf};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Op {
    #[serde(flatten)]
    base: sess::Op,
    #[serde(default)]
    lib: u32,
    #[serde(default)]
    objs: Vec<u32>,
}

#[derive(Deserialize)]
struct Session {
    id: u64,
    seed: u64,
    ops: Vec<Op>,
}

#[derive(Serialize)]
struct Event {
    #[serde(flatten)]
    op: Op,
    ok: bool,
    err: String,
    got: String,
    want: String,
    found: Vec<u32>,
}

pub fn main(a: &[String]) {
    let all: Vec<Session> = serde_json::from_str(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
    let start: usize = a[1].parse().unwrap();
    let dir = PathBuf::from(&a[2]);
    let out = std::io::stdout();
    let mut out = out.lock();
    for s in &all[start..] {
        writeln!(out, "S {}", s.id).unwrap();
        out.flush().unwrap();
        let dir = dir.join(s.id.to_string());
        std::fs::create_dir_all(&dir).unwrap();
        session(s, &dir, &mut out);
        let _ = std::fs::remove_dir_all(&dir);
        writeln!(out, "E {}", s.id).unwrap();
    }
    writeln!(out, "D").unwrap();
    out.flush().unwrap();
}

fn symbol(seed: u64, n: u32) -> String {
    // The shapes of names users and the runtime give.
    match (seed + n as u64) % 3 {
        0 => format!("f{n}"),
        1 => format!("aot_{:064x}_{n}", seed.wrapping_mul(0x9e37_79b9_7f4a_7c15)),
        _ => format!("_Fn.{n}$x"),
    }
}

fn session(s: &Session, dir: &std::path::Path, out: &mut impl Write) {
    let mut k: Option<Compiler> = None;
    let mut set = Config { opt: 2, budget: 100_000, ..Config::default() };
    set.inspect = false;
    let mut gp = 0u64;
    let mut cases: BTreeMap<u32, (u32, Case)> = BTreeMap::new();
    let mut open: Vec<u32> = vec![];
    let mut objs: Vec<Vec<u32>> = vec![];
    let mut libs: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
    let mut loaded: BTreeMap<u32, libloading::Library> = BTreeMap::new();
    for op in &s.ops {
        writeln!(out, "O {}", serde_json::to_string(op).unwrap()).unwrap();
        out.flush().unwrap();
        let mut ev = Event { op: op.clone(), ok: true, err: String::new(), got: String::new(), want: String::new(), found: vec![] };
        let mut res = |r: Result<(), String>| {
            if let Err(e) = r {
                ev.ok = false;
                ev.err = e.chars().take(600).collect();
            }
        };
        let b = &op.base;
        match b.op.as_str() {
            "new" => {
                let mut c = new_compiler(true);
                let mut x = sess::instance(s.seed, &sess::Op { fork: 13, ..Default::default() }, &set, 0);
                x.cfg = set.clone();
                configure(&mut c, &x);
                k = Some(c);
            }
            "set" => {
                sess::apply(b, &mut set, &mut gp);
                let mut c = sess::instance(s.seed, &sess::Op { fork: 13, ..Default::default() }, &set, gp);
                c.cfg = set.clone();
                configure(k.as_mut().unwrap(), &c);
            }
            "translate" => {
                let c = sess::instance(s.seed, b, &set, gp);
                let code = hex::decode(&c.code).unwrap();
                ev.want = sess::pristine(|| compile(&c).map(|_| "ok".to_string()).unwrap_or_else(|e| e)).unwrap_or_else(|e| e);
                let r = k.as_mut().unwrap().translate(&symbol(s.seed, b.name), &code[..], c.spec());
                if r.is_ok() {
                    open.push(b.f);
                }
                res(r.map(|_| ()).map_err(|e| format!("{e}")));
                cases.insert(b.f, (b.name, c));
            }
            "object" => {
                let p = dir.join(format!("o{}.o", objs.len() + 1));
                res(k.as_mut().unwrap().write_object_to_file(&p).map_err(|e| format!("{e}")));
                objs.push(open.clone());
            }
            "clear_ir" => {
                open.clear();
                res(k.as_mut().unwrap().clear_ir().map_err(|e| format!("{e}")));
            }
            "link" => {
                let mut l = Linker::new();
                match b.v {
                    1 => l.cc(Some("gcc".into())),
                    2 => l.cc(Some("clang".into())),
                    3 => l.linker(Some("lld".into())),
                    4 => l.cflags(["-g0", "-nostdlib"]),
                    6 => l.cc(Some(dir.join("none"))),
                    _ => {}
                }
                let mut files: Vec<PathBuf> = op.objs.iter().map(|o| dir.join(format!("o{o}.o"))).collect();
                if b.v == 5 {
                    files.push(dir.join("missing.o"));
                }
                let so = dir.join(format!("l{}.so", op.lib));
                res(l.link(&so, &files).map_err(|e| format!("{e}")));
                libs.insert(op.lib, op.objs.iter().flat_map(|o| objs[*o as usize - 1].clone()).collect());
            }
            "load" => match unsafe { libloading::Library::new(dir.join(format!("l{}.so", op.lib))) } {
                Err(e) => res(Err(format!("{e}"))),
                Ok(l) => {
                    for f in &libs[&op.lib] {
                        let name = symbol(s.seed, cases[f].0);
                        if unsafe { l.get::<RawEvmCompilerFn>(name.as_bytes()) }.is_ok() {
                            ev.found.push(cases[f].0);
                        }
                    }
                    loaded.insert(op.lib, l);
                }
            },
            "call" => {
                let c = sess::input(&cases[&b.f].1, b.v);
                ev.want = sess::pristine(|| match compile(&c) {
                    Ok((_k, g)) => sess::digest(&run(&c, Exec::Compiled(g)).unwrap()),
                    Err(e) => format!("compile: {e}"),
                })
                .unwrap_or_else(|e| e);
                writeln!(out, "W {}", ev.want).unwrap();
                out.flush().unwrap();
                let g = loaded.get(&op.lib).and_then(|l| unsafe { l.get::<RawEvmCompilerFn>(symbol(s.seed, b.name).as_bytes()) }.ok().map(|g| *g));
                match g {
                    None => res(Err("no such symbol".into())),
                    Some(g) => ev.got = sess::digest(&run(&c, Exec::Compiled(EvmCompilerFn::new(g))).unwrap()),
                }
            }
            x => panic!("operation {x}"),
        }
        writeln!(out, "V {}", serde_json::to_string(&ev).unwrap()).unwrap();
        out.flush().unwrap();
    }
}
