//! Stops every compilation at its start until the scenario says how it ends.
use revmc_llvm::control::{self, Phase, Verdict};
use std::{
    cell::RefCell,
    sync::{Arc, Condvar, Mutex, OnceLock},
};

pub struct Gate {
    pub name: String,
    pub verdict: Option<String>,
    pub tid: u64,
}

pub struct Gates {
    pub v: Vec<Gate>,
    /// Called when a compilation starts (number, symbol name).
    pub on_build: Option<Arc<dyn Fn(usize, &str) + Send + Sync>>,
    pub epoch: u64,
}

pub fn gates() -> &'static (Mutex<Gates>, Condvar) {
    static G: OnceLock<(Mutex<Gates>, Condvar)> = OnceLock::new();
    G.get_or_init(|| (Mutex::new(Gates { v: vec![], on_build: None, epoch: 0 }), Condvar::new()))
}

thread_local! {
    static LATER: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install() {
    control::set_hook(Some(Box::new(|phase, name| match phase {
        Phase::Build => {
            let (m, c) = gates();
            let mut g = m.lock().unwrap();
            if g.on_build.is_none() {
                // Between scenarios: what an earlier one left behind.
                return Verdict::Proceed;
            }
            let n = g.v.len();
            let epoch = g.epoch;
            g.v.push(Gate { name: name.to_string(), verdict: None, tid: tid() });
            if let Some(f) = g.on_build.clone() {
                f(n, name);
            }
            c.notify_all();
            let v = loop {
                if g.epoch != epoch {
                    break "ok".to_string();
                }
                if let Some(v) = g.v[n].verdict.clone() {
                    break v;
                }
                g = c.wait(g).unwrap();
            };
            LATER.set(v == "faillate");
            if v == "fail" { Verdict::Fail("injected failure".into()) } else { Verdict::Proceed }
        }
        Phase::Codegen => {
            if LATER.replace(false) {
                Verdict::Fail("injected failure".into())
            } else {
                Verdict::Proceed
            }
        }
        Phase::Link => Verdict::Proceed,
    })));
}

/// Forgets all gates; compilations still waiting proceed.
pub fn reset(on_build: Option<Arc<dyn Fn(usize, &str) + Send + Sync>>) {
    let (m, c) = gates();
    let mut g = m.lock().unwrap();
    g.epoch += 1;
    g.v.clear();
    g.on_build = on_build;
    c.notify_all();
}

fn tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0)
}

/// The compilations waiting at their gate on one of the given threads.
pub fn waiting_on(tids: &std::collections::HashSet<u64>) -> Vec<usize> {
    let g = gates().0.lock().unwrap();
    g.v.iter().enumerate().filter(|(_, x)| x.verdict.is_none() && tids.contains(&x.tid)).map(|(n, _)| n).collect()
}

/// Numbers of the compilations waiting at their gate.
pub fn waiting() -> Vec<usize> {
    let g = gates().0.lock().unwrap();
    g.v.iter().enumerate().filter(|(_, x)| x.verdict.is_none()).map(|(n, _)| n).collect()
}

pub fn reached() -> usize {
    gates().0.lock().unwrap().v.len()
}

pub fn release(n: usize, v: &str) {
    let (m, c) = gates();
    let mut g = m.lock().unwrap();
    g.v[n].verdict = Some(v.to_string());
    c.notify_all();
}
