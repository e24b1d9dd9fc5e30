mod aot;
mod case;
mod compile;
mod gen_;
mod host;
mod rng;
mod robust;
mod run;
mod sess;

use case::*;
use rng::Rng;
use run::{Exec, diff, run};
use std::{
    collections::BTreeMap,
    io::{BufRead, BufReader, Write},
    process::{Command, Stdio},
    sync::atomic::Ordering,
    time::{Duration, Instant},
};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("batch") => batch(&args[2..]),
        Some("worker") => worker(&args[2..]),
        Some("case") => one(&args[2..]),
        Some("sessions") => {
            prep();
            sess::main(&args[2..])
        }
        Some("aot") => {
            prep();
            aot::main(&args[2..])
        }
        Some("robust") => robust::main(&args[2..]),
        Some("robust-code") => robust::show(&args[2..]),
        _ => {
            eprintln!("usage: evmh batch|worker|case ...");
            std::process::exit(2);
        }
    }
}

fn opt<'a>(a: &'a [String], k: &str) -> Option<&'a str> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}

fn prep() {
    revmc_llvm::exec::STACK_REDZONE.store(1, Ordering::Relaxed);
    revmc_llvm::exec::FUEL.store(3_000_000, Ordering::Relaxed);
}

#[derive(serde::Serialize, serde::Deserialize)]
struct Rec {
    case: Case,
    obs: Obs,
    /// What revm's interpreter did.
    reference: Obs,
    steps: u64,
    diff: Vec<String>,
}

fn one(a: &[String]) {
    // Runs one case (JSON) both ways and prints the record.
    prep();
    let s = std::fs::read_to_string(&a[0]).unwrap();
    let c: Case = match serde_json::from_str::<Rec>(&s) {
        Ok(r) => r.case,
        Err(_) => serde_json::from_str(&s).unwrap(),
    };
    let mut pcs = vec![];
    let (steps, i) = reference(&c, 10_000_000, &mut pcs).unwrap();
    let (_k, f) = compile::compile(&c).unwrap();
    let o = run(&c, Exec::Compiled(f)).unwrap();
    let d = diff(&o, &i).into_iter().map(|x| x.1).collect();
    println!("{}", serde_json::to_string(&Rec { case: c, obs: o, reference: i, steps, diff: d }).unwrap());
}

/// Number of interpreter steps and the observation, if it ends within the budget.
fn reference(c: &Case, budget: u64, pcs: &mut Vec<(u32, u64)>) -> Option<(u64, Obs)> {
    pcs.clear();
    let o = run(c, Exec::Interp { steps: 0, left: budget, pcs: Some(pcs) })?;
    Some((pcs.len() as u64, o))
}

/// worker PROP SEED START STRIDE END SAMPLE_EVERY
fn worker(a: &[String]) {
    prep();
    let prop = a[0].clone();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, start, stride, end, every) = (n(1), n(2), n(3), n(4), n(5));
    let budget: u64 = std::env::var("EVMH_STEPS").ok().and_then(|s| s.parse().ok()).unwrap_or(40_000);
    let sample_steps: u64 = std::env::var("EVMH_SAMPLE_STEPS").ok().and_then(|s| s.parse().ok()).unwrap_or(300);
    let out = std::io::stdout();
    let mut out = out.lock();
    let mut idx = start;
    let mut pcs = vec![];
    let mut ops: BTreeMap<String, u64> = BTreeMap::new();
    while idx < end {
        writeln!(out, "S {idx}").unwrap();
        out.flush().unwrap();
        let base = gen_::case(&prop, seed, idx);
        let mut r = Rng::new(seed ^ 0xabcdef, idx);
        let first = reference(&base, budget, &mut pcs);
        let used = first.as_ref().and_then(|(_, o)| {
            let l = o.last().unwrap();
            (!matches!(l.k.as_str(), "halt") && o.len() == 1).then(|| base.gas - l.gas)
        });
        let mut cases = vec![base.clone()];
        cases.extend(gen_::variants(&base, used, &pcs, &mut r));
        match compile::compile(&base) {
            Err(e) => {
                let mut s = crash(&format!("compilation failed: {e}"));
                s.k = "crash".into();
                emit(&mut out, 'M', &Rec { case: base, obs: vec![s], reference: first.map(|x| x.1).unwrap_or_default(), steps: 0, diff: vec!["crash".into()] });
            }
            Ok((_k, f)) => {
                for (vi, c) in cases.iter().enumerate() {
                    let Some((steps, i)) = reference(c, budget, &mut pcs) else {
                        writeln!(out, "X").unwrap();
                        continue;
                    };
                    writeln!(out, "V {}", c.id).unwrap();
                    out.flush().unwrap();
                    let o = run(c, Exec::Compiled(f)).unwrap();
                    let d = diff(&o, &i);
                    let code = revm_primitives::hex::decode(&c.code).unwrap();
                    for (p, _) in &pcs {
                        *ops.entry(code.get(*p as usize).copied().unwrap_or(0).to_string()).or_default() += 1;
                    }
                    writeln!(out, "R {} {} {}", steps, o.len(), o.last().unwrap().k).unwrap();
                    if !d.is_empty() {
                        let d = d.into_iter().map(|x| x.1).collect();
                        emit(&mut out, 'M', &Rec { case: c.clone(), obs: o, reference: i, steps, diff: d });
                    } else if steps <= sample_steps && every > 0 && r.below(every as usize) == 0 && (vi > 0 || true) {
                        emit(&mut out, 'P', &Rec { case: c.clone(), obs: o, reference: vec![], steps, diff: vec![] });
                    }
                }
            }
        }
        idx += stride;
    }
    writeln!(out, "O {}", serde_json::to_string(&ops).unwrap()).unwrap();
    writeln!(out, "E").unwrap();
    out.flush().unwrap();
}

fn crash(why: &str) -> Seg {
    Seg {
        k: "crash".into(),
        why: why.into(),
        gas: 0,
        rsv: 0,
        ssp: 0,
        refund: 0,
        has_stack: false,
        stack: vec![],
        mem: String::new(),
        out: String::new(),
        world: None,
        req: Req::default(),
    }
}

fn emit(out: &mut impl Write, tag: char, r: &Rec) {
    writeln!(out, "{tag} {}", serde_json::to_string(r).unwrap()).unwrap();
    out.flush().unwrap();
}

#[derive(Default, serde::Serialize)]
struct Stats {
    programs: u64,
    runs: u64,
    skipped: u64,
    steps: u64,
    segments: u64,
    ends: BTreeMap<String, u64>,
    opcodes: BTreeMap<String, u64>,
    mismatches: u64,
    samples: u64,
    crashes: u64,
}

/// batch --prop P --seed S --count N --secs T --every K --out DIR
fn batch(a: &[String]) {
    let prop = opt(a, "--prop").unwrap().to_string();
    let seed: u64 = opt(a, "--seed").unwrap_or("1").parse().unwrap();
    let count: u64 = opt(a, "--count").unwrap_or("2000").parse().unwrap();
    let start: u64 = opt(a, "--start").unwrap_or("0").parse().unwrap();
    let secs: u64 = opt(a, "--secs").unwrap_or("60").parse().unwrap();
    let every: u64 = opt(a, "--every").unwrap_or("20").parse().unwrap();
    let stop_after: usize = opt(a, "--stop-after").unwrap_or("12").parse().unwrap();
    let jobs: u64 = opt(a, "--jobs").unwrap_or("8").parse().unwrap();
    let dir = std::path::PathBuf::from(opt(a, "--out").unwrap());
    std::fs::create_dir_all(&dir).unwrap();
    let deadline = Instant::now() + Duration::from_secs(secs);
    let shared = std::sync::Mutex::new((Stats::default(), Vec::<Rec>::new(), Vec::<Rec>::new()));
    std::thread::scope(|s| {
        for j in 0..jobs {
            let (prop, shared) = (prop.clone(), &shared);
            s.spawn(move || {
                let mut at = start + j;
                while at < start + count && Instant::now() < deadline {
                    at = drive(&prop, seed, at, jobs, start + count, every, deadline, shared, stop_after);
                }
            });
        }
    });
    let (mut st, mut mis, mut samples) = shared.into_inner().unwrap();
    mis.sort_by_key(|r| r.steps);
    st.mismatches = mis.len() as u64;
    samples.sort_by_key(|r| r.case.id);
    st.samples = samples.len() as u64;
    let wr = |n: &str, v: &[Rec]| {
        let mut f = std::io::BufWriter::new(std::fs::File::create(dir.join(n)).unwrap());
        for r in v {
            serde_json::to_writer(&mut f, r).unwrap();
            f.write_all(b"\n").unwrap();
        }
    };
    wr("mismatch.ndjson", &mis);
    wr("sample.ndjson", &samples);
    std::fs::write(dir.join("stats.json"), serde_json::to_string_pretty(&st).unwrap()).unwrap();
    println!("programs={} runs={} steps={} mismatches={} samples={} skipped={}", st.programs, st.runs, st.steps, st.mismatches, st.samples, st.skipped);
}

type Shared = std::sync::Mutex<(Stats, Vec<Rec>, Vec<Rec>)>;

/// Runs one worker process until it ends or dies; returns the next index to start at.
#[allow(clippy::too_many_arguments)]
fn drive(prop: &str, seed: u64, at: u64, stride: u64, end: u64, every: u64, deadline: Instant, sh: &Shared, stop_after: usize) -> u64 {
    let exe = std::env::current_exe().unwrap();
    let mut ch = Command::new(exe)
        .args(["worker", prop, &seed.to_string(), &at.to_string(), &stride.to_string(), &end.to_string(), &every.to_string()])
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap();
    let out = BufReader::new(ch.stdout.take().unwrap());
    let err = BufReader::new(ch.stderr.take().unwrap());
    let errt = std::thread::spawn(move || {
        let mut last = vec![];
        for l in err.lines().map_while(Result::ok) {
            if last.len() > 20 {
                last.remove(0);
            }
            last.push(l);
        }
        last
    });
    let (tx, rx) = std::sync::mpsc::channel();
    let outt = std::thread::spawn(move || {
        for l in out.lines().map_while(Result::ok) {
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    let mut cur = at;
    let mut vid = None;
    let mut done = false;
    let mut hung = false;
    loop {
        if Instant::now() >= deadline {
            let _ = ch.kill();
            let _ = ch.wait();
            return end;
        }
        match rx.recv_timeout(Duration::from_secs(if cfg!(debug_assertions) { 60 } else { 60 })) {
            Ok(l) => {
                let mut g = sh.lock().unwrap();
                let (tag, rest) = l.split_at(1.min(l.len()));
                let rest = rest.trim_start();
                match tag {
                    "S" => {
                        cur = rest.parse().unwrap_or(cur);
                        vid = None;
                        g.0.programs += 1;
                        if g.1.len() >= stop_after {
                            drop(g);
                            let _ = ch.kill();
                            let _ = ch.wait();
                            return end;
                        }
                    }
                    "V" => vid = rest.parse::<u64>().ok(),
                    "X" => g.0.skipped += 1,
                    "R" => {
                        let mut p = rest.split(' ');
                        g.0.runs += 1;
                        g.0.steps += p.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                        g.0.segments += p.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                        *g.0.ends.entry(p.next().unwrap_or("?").to_string()).or_default() += 1;
                        vid = None;
                    }
                    "M" => {
                        if let Ok(r) = serde_json::from_str::<Rec>(rest) {
                            g.1.push(r);
                        }
                    }
                    "P" => {
                        if let Ok(r) = serde_json::from_str::<Rec>(rest) {
                            g.2.push(r);
                        }
                    }
                    "O" => {
                        if let Ok(m) = serde_json::from_str::<BTreeMap<String, u64>>(rest) {
                            for (k, v) in m {
                                *g.0.opcodes.entry(k).or_default() += v;
                            }
                        }
                    }
                    "E" => done = true,
                    _ => {}
                }
            }
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                hung = true;
                let _ = ch.kill();
                break;
            }
            Err(_) => break,
        }
    }
    let status = ch.wait().unwrap();
    let _ = outt.join();
    let last = errt.join().unwrap_or_default();
    if done && status.success() {
        return end;
    }
    // Died at `cur`: that is an observation too.
    let base = gen_::case(prop, seed, cur);
    let mut pcs = vec![];
    let mut c = base.clone();
    if let Some(v) = vid {
        let first = reference(&base, 40_000, &mut pcs);
        let used = first.as_ref().and_then(|(_, o)| {
            let l = o.last().unwrap();
            (!matches!(l.k.as_str(), "halt") && o.len() == 1).then(|| base.gas - l.gas)
        });
        let mut r = Rng::new(seed ^ 0xabcdef, cur);
        if let Some(x) = gen_::variants(&base, used, &pcs, &mut r).into_iter().find(|x| x.id == v) {
            c = x;
        }
    }
    let (steps, i) = reference(&c, 40_000, &mut pcs).unwrap_or_default();
    let why = if hung {
        "no progress for 60 s".to_string()
    } else {
        format!("{} {}", status, last.iter().find(|l| l.contains("FAKE-LLVM-TRAP") || l.contains("panicked")).cloned().unwrap_or_else(|| last.join(" | ")))
    };
    let mut g = sh.lock().unwrap();
    g.0.crashes += 1;
    g.1.push(Rec { case: c, obs: vec![crash(&why)], reference: i, steps, diff: vec!["crash".into()] });
    cur + stride
}
