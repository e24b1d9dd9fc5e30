//! Compiles arbitrary byte strings, twice, and records what came of it.
use crate::{case::*, compile::*, gen_, rng::Rng};
use revm_primitives::{hex, keccak256};
use revmc_backend::Backend;
use std::{io::Write, time::Instant};

const TERMS: [u8; 8] = [0x00, 0x56, 0x57, 0xf3, 0xfd, 0xfe, 0xff, 0x5b];

fn soup(r: &mut Rng, n: usize) -> Vec<u8> {
    let style = r.below(7);
    let mut b = Vec::with_capacity(n + 40);
    while b.len() < n {
        let x = r.below(100);
        match style {
            // Valid instructions, mostly.
            0 => match x {
                0..40 => {
                    let k = r.below(5);
                    b.push(0x5f + k as u8);
                    b.extend(r.bytes(k));
                }
                40..60 => b.push(0x80 + r.below(32) as u8),
                60..70 => b.push(0x01 + r.below(0x1e) as u8),
                70..80 => b.push(0x30 + r.below(0x1b) as u8),
                80..90 => b.push(0x50 + r.below(15) as u8),
                90..95 => b.push(*r.pick(&TERMS)),
                95..97 => b.push(0xe6 + r.below(3) as u8),
                _ => b.push(0xa0 + r.below(96) as u8),
            },
            // Jump tables: destinations anywhere.
            1 => {
                b.push(0x5b);
                for _ in 0..r.below(4) {
                    b.push(*r.pick(&[0x80, 0x50, 0x5f, 0x90, 0x01, 0x34, 0x91]));
                }
                let t = r.below(n.max(1));
                b.extend([0x61, (t >> 8) as u8, t as u8, *r.pick(&[0x56, 0x57, 0x57])]);
            }
            // Internal calls: return address, arguments, target.
            2 => {
                let t = r.below(n.max(1));
                let ret = b.len() + 8;
                match r.below(3) {
                    0 => b.extend([0x5b, 0x61, (ret >> 8) as u8, ret as u8, 0x61, (t >> 8) as u8, t as u8, 0x56, 0x5b]),
                    1 => b.extend([0x5b, 0x90, 0x56]),
                    _ => b.extend([0x5b, 0x80 + r.below(4) as u8, 0x57, 0x56]),
                }
            }
            // One instruction over and over.
            3 => {
                let o = r.next() as u8;
                let k = r.range(1, 600);
                for _ in 0..k {
                    b.push(o);
                }
            }
            4 => b.push(r.next() as u8),
            // Pushes wide enough to swallow what follows.
            5 => {
                b.push(0x60 + r.below(32) as u8);
                b.push(*r.pick(&[0x5b, 0x56, 0x00, 0x7f, 0xe6]));
            }
            // Equal blocks.
            _ => {
                let k = r.range(2, 12);
                let mut one = vec![0x5b];
                one.extend((0..k).map(|_| *r.pick(&[0x50, 0x5f, 0x01, 0x80, 0x81, 0x90, 0x52, 0x54, 0x34, 0x16])));
                one.push(*r.pick(&TERMS));
                for _ in 0..r.range(2, 30) {
                    b.extend(&one);
                    if r.pct(10) {
                        let t = r.below(n.max(1));
                        b.extend([0x61, (t >> 8) as u8, t as u8, 0x56]);
                    }
                }
            }
        }
    }
    b.truncate(n);
    b
}

pub fn code(seed: u64, idx: u64) -> (Vec<u8>, Case) {
    let mut rng = Rng::new(seed ^ 0xc10, idx);
    let r = &mut rng;
    let base = gen_::case(["C03", "C09", "C04", "C01", "C07", "C05"][r.below(6)], seed, idx);
    let n = match r.below(100) {
        0..2 => r.range(12_000, 24_576),
        2..3 => r.range(24_576, 49_152),
        3..10 => r.range(2_000, 8_000),
        10..30 => r.range(200, 1_500),
        30..40 => r.below(4),
        _ => r.below(200),
    };
    let mut b = match r.below(10) {
        0..3 => soup(r, n),
        // Several styles after one another, sharing the code space.
        3 => {
            let mut b = vec![];
            for _ in 0..r.range(2, 4) {
                b.extend(soup(r, n / 3));
            }
            b
        }
        4 => {
            let c = gen_::corpus();
            if c.is_empty() { soup(r, n) } else { r.pick(c).1.clone() }
        }
        _ => hex::decode(&base.code).unwrap(),
    };
    // Damage.
    for _ in 0..*r.pick(&[0usize, 0, 1, 2, 8]) {
        if b.is_empty() {
            break;
        }
        let at = r.below(b.len());
        match r.below(6) {
            0 => b[at] ^= 1 << r.below(8),
            1 => b[at] = r.next() as u8,
            2 => b.truncate(at),
            3 => b.insert(at, *r.pick(&[0x5b, 0x56, 0x57, 0x60, 0x7f, 0x00, 0xe8])),
            4 => {
                b.remove(at);
            }
            _ => {
                let to = (at + r.below(64)).min(b.len());
                let part = b[at..to].to_vec();
                let k = r.below(b.len());
                b.splice(k..k, part);
            }
        }
    }
    b.truncate(49_152);
    let mut c = base;
    c.fork = if r.pct(40) { 14 } else { r.below(15) };
    c.cfg = gen_::config(r, "C09");
    if c.cfg.budget < 0 {
        c.cfg.budget = 100_000;
    }
    c.custom_gp = false;
    c.gp = gp_of(c.spec());
    c.code = hex::encode(&b);
    (b, c)
}

fn object(k: &mut Compiler, c: &Case, b: &[u8]) -> Result<String, String> {
    k.translate("f", b, c.spec()).map_err(|e| format!("translate: {e}"))?;
    k.backend_mut().verify_module().map_err(|e| format!("malformed: {e}"))?;
    let mut o = vec![];
    k.write_object(&mut o).map_err(|e| format!("object: {e}"))?;
    Ok(hex::encode(&keccak256(&o)[..12]))
}

/// robust SEED START STRIDE END: one line per byte string.
pub fn main(a: &[String]) {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, start, stride, end) = (n(0), n(1), n(2), n(3));
    let out = std::io::stdout();
    let mut out = out.lock();
    let mut shared = new_compiler(false);
    let mut idx = start;
    while idx < end {
        writeln!(out, "S {idx}").unwrap();
        out.flush().unwrap();
        let (b, c) = code(seed, idx);
        let t = Instant::now();
        let mut k = new_compiler(false);
        configure(&mut k, &c);
        let first = object(&mut k, &c, &b);
        let ms = t.elapsed().as_millis() as u64;
        drop(k);
        // Again, on an instance that has compiled everything before.
        configure(&mut shared, &c);
        let second = object(&mut shared, &c, &b);
        unsafe { shared.clear() }.unwrap();
        let j = |r: &Result<String, String>| match r {
            Ok(d) => d.clone(),
            Err(e) => format!("error: {e}"),
        };
        writeln!(out, "R {}", serde_json::json!({"i": idx, "len": b.len(), "fork": c.fork, "ms": ms, "a": j(&first), "b": j(&second)})).unwrap();
        idx += stride;
    }
    writeln!(out, "D").unwrap();
    out.flush().unwrap();
}

pub fn show(a: &[String]) {
    let (_, c) = code(a[0].parse().unwrap(), a[1].parse().unwrap());
    println!("{}", serde_json::to_string(&c).unwrap());
}
