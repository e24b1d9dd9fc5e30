//! Test control: lets a harness observe, delay, fail or crash individual compilations.
use std::sync::{
    Mutex, OnceLock,
    atomic::{AtomicUsize, Ordering},
};

/// What a compilation should do when it reaches a gate.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Proceed,
    Fail(String),
    Panic(String),
}

/// Where in the compilation the gate was reached.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Phase {
    /// `build_function`: translation starts.
    Build,
    /// `jit_function` / `write_object`: code generation.
    Codegen,
    /// A compiled object is being linked into this process.
    Link,
}

type Hook = Box<dyn Fn(Phase, &str) -> Verdict + Send + Sync>;

fn hook() -> &'static Mutex<Option<std::sync::Arc<Hook>>> {
    static H: OnceLock<Mutex<Option<std::sync::Arc<Hook>>>> = OnceLock::new();
    H.get_or_init(Default::default)
}

/// Installs the process-wide gate hook.
pub fn set_hook(h: Option<Hook>) {
    *hook().lock().unwrap() = h.map(std::sync::Arc::new);
}

pub(crate) fn gate(phase: Phase, name: &str) -> Result<(), String> {
    let h = hook().lock().unwrap().clone();
    let v = match h {
        Some(h) => h(phase, name),
        None => match env_gate(phase, name) {
            Some(v) => v,
            None => return Ok(()),
        },
    };
    match v {
        Verdict::Proceed => Ok(()),
        Verdict::Fail(e) => Err(e),
        Verdict::Panic(e) => panic!("{e}"),
    }
}

/// File-based gate for processes the harness does not run code in (the out-of-process helper).
///
/// With `REVMC_FAKE_GATE=DIR`, a compilation reaching `Build` creates `DIR/<pid>.<n>.wait` holding
/// the symbol name, then polls for `DIR/<pid>.<n>.go`, whose contents say what to do.
fn env_gate(phase: Phase, name: &str) -> Option<Verdict> {
    static DIR: OnceLock<Option<std::path::PathBuf>> = OnceLock::new();
    let dir = DIR.get_or_init(|| std::env::var_os("REVMC_FAKE_GATE").map(Into::into)).as_ref()?;
    if phase != Phase::Build {
        return None;
    }
    static N: AtomicUsize = AtomicUsize::new(0);
    let n = N.fetch_add(1, Ordering::SeqCst);
    let base = format!("{}.{n}", std::process::id());
    let tmp = dir.join(format!("{base}.tmp"));
    std::fs::write(&tmp, name).ok()?;
    std::fs::rename(&tmp, dir.join(format!("{base}.wait"))).ok()?;
    let go = dir.join(format!("{base}.go"));
    let all = dir.join("all.go");
    let cmd = loop {
        if let Ok(s) = std::fs::read_to_string(&go) {
            break s;
        }
        if let Ok(s) = std::fs::read_to_string(&all) {
            break s;
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    };
    Some(match cmd.trim() {
        "fail" => Verdict::Fail("injected failure".into()),
        "panic" => Verdict::Panic("injected panic".into()),
        "exit" => std::process::exit(3),
        "abort" => std::process::abort(),
        "hang" => loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
        },
        "garbage" => {
            use std::io::Write;
            let _ = std::io::stdout().write_all(&[0xff; 64]);
            let _ = std::io::stdout().flush();
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
            }
        }
        _ => Verdict::Proceed,
    })
}

/// Number of functions made executable in this process so far.
pub static COMMITTED: AtomicUsize = AtomicUsize::new(0);
/// Number of functions freed so far.
pub static FREED: AtomicUsize = AtomicUsize::new(0);

/// True if `addr` is the entry of compiled code that has not been freed.
pub fn is_live(addr: usize) -> bool {
    crate::exec::is_live(addr)
}
