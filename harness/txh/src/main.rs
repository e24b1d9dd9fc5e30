//! txh run SEED FROM STEP END [inspect] | txh show SEED INDEX [inspect]
mod db;
mod exec;
mod probe;
mod rng;
mod world;

use std::io::Write;

fn main() {
    if let Ok(std::ops::ControlFlow::Break(())) = revmc_runtime::runtime::maybe_run_jit_helper() {
        return;
    }
    let a: Vec<String> = std::env::args().collect();
    let n = |k: usize| a[k].parse::<u64>().unwrap();
    let out = std::io::stdout();
    match a[1].as_str() {
        "run" => {
            let mut i = n(3);
            while i < n(5) {
                writeln!(out.lock(), "S {i}").unwrap();
                let mut w = world::world(n(2), i);
                w.txs.iter_mut().for_each(|t| t.inspect |= a.len() > 6);
                let mut r = exec::run(&w, false);
                r["i"] = i.into();
                writeln!(out.lock(), "R {r}").unwrap();
                i += n(4);
            }
            writeln!(out.lock(), "D").unwrap();
        }
        "show" => {
            let mut w = world::world(n(2), n(3));
            w.txs.iter_mut().for_each(|t| t.inspect |= a.len() > 4);
            eprintln!("{w:#?}");
            println!("{}", exec::run(&w, true));
        }
        _ => std::process::exit(2),
    }
}
