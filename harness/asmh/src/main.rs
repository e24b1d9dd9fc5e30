//! asmh IN OUT: one JSON object per line, {"text"} or {"code", "fork"}; writes what the repository makes of it.
use revm_primitives::{hardfork::SpecId, hex};
use revmc_codegen::{EvmCompiler, EvmCompilerInput, OpcodesIter, format_bytecode, parse_asm};
use revmc_llvm::EvmLlvmBackend;
use serde_json::{Value, json};
use std::{
    io::{BufRead, BufReader, Write},
    panic::{AssertUnwindSafe, catch_unwind},
};

fn asm(text: &str) -> String {
    match catch_unwind(AssertUnwindSafe(|| parse_asm(text))) {
        Ok(Ok(b)) => hex::encode(b),
        Ok(Err(_)) => "err".into(),
        Err(_) => "panic".into(),
    }
}

/// The instructions a printed program shows, without its annotations.
fn shown(s: &str) -> Vec<String> {
    s.lines()
        .map(|l| l.split(';').next().unwrap().trim_end())
        .filter(|l| l.starts_with("  "))
        .map(|l| l.split(" %").next().unwrap().trim().to_string())
        .filter(|l| !l.is_empty())
        .collect()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for line in BufReader::new(std::fs::File::open(&a[1]).unwrap()).lines() {
        let mut r: Value = serde_json::from_str(&line.unwrap()).unwrap();
        if let Some(t) = r["text"].as_str() {
            r["res"] = json!(asm(t));
        } else {
            let code = hex::decode(r["code"].as_str().unwrap()).unwrap();
            let name = r["fork"].as_str().unwrap().to_string();
            let fork = (0..=255u8)
                .filter_map(SpecId::try_from_u8)
                .find(|f| format!("{f:?}") == name)
                .unwrap_or_else(|| panic!("fork {name}"));
            let got = catch_unwind(AssertUnwindSafe(|| {
                let text = format_bytecode(&code, fork);
                let ops: Vec<Value> = OpcodesIter::new(&code, fork)
                    .with_pc()
                    .map(|(pc, o)| json!({"pc": pc, "op": o.opcode, "imm": o.immediate.map(hex::encode).unwrap_or_default()}))
                    .collect();
                let mut k = EvmCompiler::new(EvmLlvmBackend::new(false).unwrap());
                k.set_dedup(false);
                k.set_dse(false);
                let dump = match k.parse(EvmCompilerInput::Code((&code[..]).into()), fork) {
                    Ok(b) => shown(&format!("{b}")),
                    Err(e) => vec![format!("error {e}")],
                };
                (text, ops, dump)
            }));
            match got {
                Ok((text, ops, dump)) => {
                    r["back"] = json!(asm(&text));
                    r["shown"] = json!(text);
                    r["ops"] = json!(ops);
                    r["dump"] = json!(dump);
                }
                Err(_) => {
                    r["back"] = json!("panic");
                    r["shown"] = json!("panic");
                    r["ops"] = json!([]);
                    r["dump"] = json!([]);
                }
            }
        }
        writeln!(out, "{r}").unwrap();
        out.flush().unwrap();
    }
}
