mod fault;

use revm_primitives::{B256, hardfork::SpecId, keccak256};
use revmc_backend::OptimizationLevel;
use revmc_runtime::runtime::{ArtifactKey, ArtifactManifest, ArtifactStore, BackendSelection, RuntimeArtifactStore, RuntimeCacheKey, StoredArtifact};
use serde::{Deserialize, Serialize};
use std::{io::{Read, Seek, Write}, path::PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Op {
    op: String,
    #[serde(default)]
    k: usize,
    #[serde(default)]
    v: usize,
    /// The call that fails, how, and after half a write.
    #[serde(default)]
    fault: i64,
    #[serde(default)]
    e: usize,
    #[serde(default)]
    short: bool,
}

#[derive(Deserialize)]
struct Scenario {
    id: u64,
    ops: Vec<Op>,
}

/// Keys that differ from key 1 in one component each, and others.
fn key(k: usize) -> ArtifactKey {
    let h = |n: u8| B256::with_last_byte(n);
    let mut key = ArtifactKey {
        runtime: RuntimeCacheKey { code_hash: h(7), spec_id: SpecId::CANCUN },
        backend: BackendSelection::Llvm,
        opt_level: OptimizationLevel::Default,
    };
    match k {
        1 => {}
        2 => key.runtime.spec_id = SpecId::PRAGUE,
        3 => key.opt_level = OptimizationLevel::Aggressive,
        4 => key.backend = BackendSelection::Auto,
        5 => key.runtime.code_hash = h(8),
        6 => key.runtime.code_hash = B256::repeat_byte(7),
        7 => key.runtime.code_hash.0[0] = 1,
        8 => key.runtime.code_hash.0[16] = 1,
        9 => key.opt_level = OptimizationLevel::None,
        10 => {
            key.opt_level = OptimizationLevel::Less;
            key.runtime.spec_id = SpecId::FRONTIER;
        }
        _ => panic!("key {k}"),
    }
    key
}

fn bytes(k: usize, v: usize) -> Vec<u8> {
    let n = [0, 1, 13, 4096, 5000, 70_000, 300_000][v % 7];
    let mut x = (v as u32).wrapping_mul(2_654_435_761) ^ (k as u32) << 20;
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
            (x >> 24) as u8
        })
        .collect()
}

fn manifest(k: usize, v: usize) -> ArtifactManifest {
    let b = bytes(k, v);
    ArtifactManifest {
        artifact_key: key(k),
        symbol_name: format!("sym_{k}_{v}"),
        bytecode_len: 1000 * k + v,
        artifact_len: b.len(),
        created_at_unix_secs: 1_000_000 + v as u64,
        content_hash: keccak256(&b).0,
    }
}

/// Which stored value this is: 0 none, -1 not one.
fn which(k: usize, s: Option<&StoredArtifact>) -> i64 {
    let Some(s) = s else { return 0 };
    let Some(v) = s.manifest.symbol_name.strip_prefix(&format!("sym_{k}_")).and_then(|x| x.parse::<usize>().ok()) else { return -1 };
    let m = manifest(k, v);
    let same = s.manifest.artifact_key == m.artifact_key
        && s.manifest.bytecode_len == m.bytecode_len
        && s.manifest.artifact_len == m.artifact_len
        && s.manifest.created_at_unix_secs == m.created_at_unix_secs
        && s.manifest.content_hash == m.content_hash
        && std::fs::read(&s.dylib_path).is_ok_and(|b| b == bytes(k, v));
    if same { v as i64 } else { -1 }
}

const KEYS: usize = 10;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let all: Vec<Scenario> = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
    let can = fault::install();
    let errs = [libc::ENOSPC, libc::EIO, libc::EACCES, libc::EMFILE, libc::EEXIST, libc::EDQUOT, libc::ENOENT];
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    writeln!(out, "C {can}").unwrap();
    for s in &all {
        let store = RuntimeArtifactStore::new().unwrap();
        let mut held: Vec<(std::fs::File, usize, i64)> = vec![];
        let mut paths: Vec<Option<PathBuf>> = vec![None; KEYS + 1];
        writeln!(out, "S {}", s.id).unwrap();
        for op in &s.ops {
            let e = errs[op.e % errs.len()];
            // An error that only a read or a lookup reports.
            let before: Vec<Option<PathBuf>> = paths.clone();
            let data = bytes(op.k, op.v);
            let man = (op.op == "store").then(|| manifest(op.k, op.v));
            let kk = if op.k > 0 { Some(key(op.k)) } else { None };
            if can {
                fault::arm(op.fault, e, op.short);
            }
            let r = match op.op.as_str() {
                "store" => store.store(kk.as_ref().unwrap(), man.as_ref().unwrap(), &data),
                "delete" => store.delete(kk.as_ref().unwrap()),
                "clear" => store.clear(),
                "open" => Ok(()),
                x => panic!("operation {x}"),
            };
            let (seen, hit) = if can { fault::disarm() } else { (0, false) };
            if op.op == "open"
                && let Ok(Some(x)) = store.load(kk.as_ref().unwrap())
                && let Ok(f) = std::fs::File::open(&x.dylib_path)
            {
                held.push((f, op.k, which(op.k, Some(&x))));
            }
            let mut snap = vec![];
            for k in 1..=KEYS {
                let l = store.load(&key(k));
                paths[k] = l.as_ref().ok().and_then(|x| x.as_ref()).map(|x| x.dylib_path.clone());
                snap.push(match &l {
                    Ok(x) => which(k, x.as_ref()),
                    Err(_) => -2,
                });
            }
            let all = store.load_all().unwrap();
            let mut listed: Vec<i64> = vec![0; KEYS];
            let mut strange = false;
            for (ak, x) in &all {
                match (1..=KEYS).find(|k| key(*k) == *ak) {
                    Some(k) if listed[k - 1] == 0 => listed[k - 1] = which(k, Some(x)),
                    _ => strange = true,
                }
            }
            // Files of artifacts that are no longer there.
            let left = (1..=KEYS).filter(|k| paths[*k].is_none() && before[*k].as_ref().is_some_and(|p| p.exists())).count();
            let kept: Vec<bool> = held
                .iter_mut()
                .map(|(f, k, v)| {
                    let mut b = vec![];
                    f.rewind().unwrap();
                    f.read_to_end(&mut b).is_ok() && *v > 0 && b == bytes(*k, *v as usize)
                })
                .collect();
            let ev = serde_json::json!({"op": op.op, "k": op.k, "v": op.v, "hit": hit, "seen": seen, "ok": r.is_ok(), "snap": snap, "listed": listed,
                "strange": strange, "len": store.len(), "empty": store.is_empty(), "left": left, "held": kept});
            writeln!(out, "V {ev}").unwrap();
        }
        writeln!(out, "E {}", s.id).unwrap();
        out.flush().unwrap();
    }
    writeln!(out, "D").unwrap();
}
