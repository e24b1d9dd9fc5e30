//! Runs runtime scenarios (one JSON object per line) and writes one trace per line.
mod gate;
mod scen;
mod world;

use std::io::{BufRead, BufReader, Write};

fn main() {
    if let Ok(std::ops::ControlFlow::Break(())) = revmc_runtime::runtime::maybe_run_jit_helper() {
        return;
    }
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        // rth run SCENARIOS OUT [SLOW]
        Some("run") => {
            let slow: u64 = a.get(4).map(|s| s.parse().unwrap()).unwrap_or(1);
            let f = BufReader::new(std::fs::File::open(&a[2]).unwrap());
            let mut out = std::fs::OpenOptions::new().append(true).create(true).open(&a[3]).unwrap();
            gate::install();
            for line in f.lines() {
                let line = line.unwrap();
                if line.trim().is_empty() {
                    continue;
                }
                let s: scen::Scenario = serde_json::from_str(&line).unwrap();
                let t = world::run(&s, slow);
                writeln!(out, "{}", serde_json::to_string(&t).unwrap()).unwrap();
                out.flush().unwrap();
                if t["stuck"].as_bool().unwrap_or(false) {
                    // Threads are left behind: the next scenario needs a fresh process.
                    std::process::exit(7);
                }
            }
        }
        _ => {
            eprintln!("usage: rth run SCENARIOS OUT [SLOW]");
            std::process::exit(2);
        }
    }
}
