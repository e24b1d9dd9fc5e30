//! Program and environment generators, one profile per aspect of the specification.
use crate::{case::*, rng::Rng};
use revm_primitives::{Address, U256, hex};
use std::sync::OnceLock;

/// Bytecode under construction with labels patched at the end.
pub struct Asm {
    pub b: Vec<u8>,
    labels: Vec<Option<usize>>,
    fix: Vec<(usize, usize, i64)>,
    cdfix: Vec<(usize, usize)>,
}

impl Asm {
    fn new() -> Self {
        Self { b: vec![], labels: vec![], fix: vec![], cdfix: vec![] }
    }
    fn op(&mut self, o: u8) {
        self.b.push(o);
    }
    fn label(&mut self) -> usize {
        self.labels.push(None);
        self.labels.len() - 1
    }
    fn bind(&mut self, l: usize) {
        self.labels[l] = Some(self.b.len());
        self.b.push(0x5b);
    }
    fn push_label(&mut self, l: usize, add: i64) {
        self.b.push(0x61);
        self.fix.push((self.b.len(), l, add));
        self.b.extend([0, 0]);
    }
    fn push_bytes(&mut self, v: &[u8]) {
        self.b.push(0x5f + v.len() as u8);
        self.b.extend(v);
    }
    fn done(mut self, cd: &mut [u8]) -> Vec<u8> {
        for (at, l, add) in self.fix {
            let v = (self.labels[l].unwrap_or(0xfff0) as i64 + add) as u16;
            self.b[at..at + 2].copy_from_slice(&v.to_be_bytes());
        }
        for (at, l) in self.cdfix {
            let v = self.labels[l].unwrap_or(0xfff0) as u16;
            cd[at + 30..at + 32].copy_from_slice(&v.to_be_bytes());
        }
        self.b
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum T {
    /// Any word.
    W,
    /// Shift amount, byte index or other small number with edges.
    I,
    /// Memory offset.
    O,
    /// Length.
    L,
    /// Offset into calldata, code or return data.
    D,
    /// Address.
    A,
    /// Storage key.
    K,
    /// Call value.
    V,
    /// Gas for a call.
    G,
    /// Block number.
    N,
    /// Exponent.
    E,
}
use T::*;

pub struct Op {
    pub o: u8,
    pub args: &'static [T],
    pub out: usize,
    pub fork: usize,
    pub class: u8,
}

/// Classes: a arithmetic, e environment, m memory, h host, c call, l log, g gas/msize/pc, k keccak, r return data.
pub static OPS: &[Op] = &[
    Op { o: 0x01, args: &[W, W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x02, args: &[W, W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x03, args: &[W, W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x04, args: &[W, W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x05, args: &[W, W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x06, args: &[W, W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x07, args: &[W, W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x08, args: &[W, W, W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x09, args: &[W, W, W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x0a, args: &[W, E], out: 1, fork: 0, class: b'a' },
    Op { o: 0x0b, args: &[I, W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x10, args: &[W, W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x11, args: &[W, W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x12, args: &[W, W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x13, args: &[W, W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x14, args: &[W, W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x15, args: &[W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x16, args: &[W, W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x17, args: &[W, W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x18, args: &[W, W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x19, args: &[W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x1a, args: &[I, W], out: 1, fork: 0, class: b'a' },
    Op { o: 0x1b, args: &[I, W], out: 1, fork: PETERSBURG, class: b'a' },
    Op { o: 0x1c, args: &[I, W], out: 1, fork: PETERSBURG, class: b'a' },
    Op { o: 0x1d, args: &[I, W], out: 1, fork: PETERSBURG, class: b'a' },
    Op { o: 0x1e, args: &[W], out: 1, fork: OSAKA, class: b'a' },
    Op { o: 0x20, args: &[O, L], out: 1, fork: 0, class: b'k' },
    Op { o: 0x30, args: &[], out: 1, fork: 0, class: b'e' },
    Op { o: 0x31, args: &[A], out: 1, fork: 0, class: b'h' },
    Op { o: 0x32, args: &[], out: 1, fork: 0, class: b'e' },
    Op { o: 0x33, args: &[], out: 1, fork: 0, class: b'e' },
    Op { o: 0x34, args: &[], out: 1, fork: 0, class: b'e' },
    Op { o: 0x35, args: &[D], out: 1, fork: 0, class: b'e' },
    Op { o: 0x36, args: &[], out: 1, fork: 0, class: b'e' },
    Op { o: 0x37, args: &[O, D, L], out: 0, fork: 0, class: b'm' },
    Op { o: 0x38, args: &[], out: 1, fork: 0, class: b'e' },
    Op { o: 0x39, args: &[O, D, L], out: 0, fork: 0, class: b'm' },
    Op { o: 0x3a, args: &[], out: 1, fork: 0, class: b'e' },
    Op { o: 0x3b, args: &[A], out: 1, fork: 0, class: b'h' },
    Op { o: 0x3c, args: &[A, O, D, L], out: 0, fork: 0, class: b'h' },
    Op { o: 0x3d, args: &[], out: 1, fork: BYZANTIUM, class: b'r' },
    Op { o: 0x3e, args: &[O, D, L], out: 0, fork: BYZANTIUM, class: b'r' },
    Op { o: 0x3f, args: &[A], out: 1, fork: PETERSBURG, class: b'h' },
    Op { o: 0x40, args: &[N], out: 1, fork: 0, class: b'h' },
    Op { o: 0x41, args: &[], out: 1, fork: 0, class: b'e' },
    Op { o: 0x42, args: &[], out: 1, fork: 0, class: b'e' },
    Op { o: 0x43, args: &[], out: 1, fork: 0, class: b'e' },
    Op { o: 0x44, args: &[], out: 1, fork: 0, class: b'e' },
    Op { o: 0x45, args: &[], out: 1, fork: 0, class: b'e' },
    Op { o: 0x46, args: &[], out: 1, fork: ISTANBUL, class: b'e' },
    Op { o: 0x47, args: &[], out: 1, fork: ISTANBUL, class: b'h' },
    Op { o: 0x48, args: &[], out: 1, fork: LONDON, class: b'e' },
    Op { o: 0x49, args: &[I], out: 1, fork: CANCUN, class: b'e' },
    Op { o: 0x4a, args: &[], out: 1, fork: CANCUN, class: b'e' },
    Op { o: 0x4b, args: &[], out: 1, fork: AMSTERDAM, class: b'e' },
    Op { o: 0x51, args: &[O], out: 1, fork: 0, class: b'm' },
    Op { o: 0x52, args: &[O, W], out: 0, fork: 0, class: b'm' },
    Op { o: 0x53, args: &[O, W], out: 0, fork: 0, class: b'm' },
    Op { o: 0x54, args: &[K], out: 1, fork: 0, class: b'h' },
    Op { o: 0x55, args: &[K, K], out: 0, fork: 0, class: b'h' },
    Op { o: 0x58, args: &[], out: 1, fork: 0, class: b'g' },
    Op { o: 0x59, args: &[], out: 1, fork: 0, class: b'g' },
    Op { o: 0x5a, args: &[], out: 1, fork: 0, class: b'g' },
    Op { o: 0x5c, args: &[K], out: 1, fork: CANCUN, class: b'h' },
    Op { o: 0x5d, args: &[K, K], out: 0, fork: CANCUN, class: b'h' },
    Op { o: 0x5e, args: &[O, O, L], out: 0, fork: CANCUN, class: b'm' },
    Op { o: 0xa0, args: &[O, L], out: 0, fork: 0, class: b'l' },
    Op { o: 0xa1, args: &[O, L, W], out: 0, fork: 0, class: b'l' },
    Op { o: 0xa2, args: &[O, L, W, W], out: 0, fork: 0, class: b'l' },
    Op { o: 0xa3, args: &[O, L, W, W, W], out: 0, fork: 0, class: b'l' },
    Op { o: 0xa4, args: &[O, L, W, W, W, W], out: 0, fork: 0, class: b'l' },
    Op { o: 0xf0, args: &[V, O, L], out: 1, fork: 0, class: b'c' },
    Op { o: 0xf1, args: &[G, A, V, O, L, O, L], out: 1, fork: 0, class: b'c' },
    Op { o: 0xf2, args: &[G, A, V, O, L, O, L], out: 1, fork: 0, class: b'c' },
    Op { o: 0xf4, args: &[G, A, O, L, O, L], out: 1, fork: HOMESTEAD, class: b'c' },
    Op { o: 0xf5, args: &[V, O, L, W], out: 1, fork: PETERSBURG, class: b'c' },
    Op { o: 0xfa, args: &[G, A, O, L, O, L], out: 1, fork: BYZANTIUM, class: b'c' },
];

fn a20(b: u8) -> Address {
    Address::repeat_byte(b)
}
pub fn this() -> Address {
    a20(0xba)
}
fn addr_pool() -> Vec<Address> {
    vec![
        a20(0xba),
        a20(0xca),
        a20(0xcc),
        a20(0xcb),
        a20(0x11), // contract
        a20(0x22), // account with balance only
        a20(0x33), // does not exist
        a20(0x44), // delegated to 0x11
        a20(0x55), // delegated to 0x66
        a20(0x66), // small contract, cold
        a20(0x77), // existing but empty account
        Address::with_last_byte(1),
        Address::with_last_byte(0),
    ]
}

pub fn edge(r: &mut Rng) -> U256 {
    let one = U256::from(1);
    match r.below(14) {
        0 => U256::ZERO,
        1 => one,
        2 => U256::MAX - U256::from(r.below(4)),
        3 => {
            let s = r.below(256);
            one << s
        }
        4 => {
            let s = r.below(256);
            (one << s) - one
        }
        5 => {
            let s = r.below(256);
            U256::ZERO.wrapping_sub(one << s)
        }
        6 => U256::from(r.below(300)),
        7 => U256::ZERO.wrapping_sub(U256::from(r.below(300))),
        8 => {
            let n = r.range(1, 32);
            U256::from_be_slice(&r.bytes(n))
        }
        9 => *r.pick(&[
            one << 255,
            (one << 255) - one,
            (one << 255) + one,
            one << 128,
            (one << 128) - one,
            one << 64,
            (one << 64) - one,
            one << 63,
            one << 32,
            one << 160,
            U256::from(0x80),
            U256::from(0x7f),
            U256::from(0x8000),
            U256::from(31),
            U256::from(32),
            U256::from(33),
            U256::from(255),
            U256::from(256),
            U256::from(257),
        ]),
        10 => {
            // Sparse bytes.
            let mut b = [0u8; 32];
            for _ in 0..r.range(1, 4) {
                b[r.below(32)] = *r.pick(&[1, 0x80, 0xff, 0x7f]);
            }
            U256::from_be_bytes(b)
        }
        11 => U256::from(r.next()),
        _ => U256::from_be_slice(&r.bytes(32)),
    }
}

pub struct G<'a> {
    r: &'a mut Rng,
    a: Asm,
    h: usize,
    cd: Vec<u8>,
    fork: usize,
    codelen: usize,
    /// Percent of operands that are compile-time constants.
    konst: usize,
    weights: Vec<(u8, usize)>,
    /// Percent of destinations that only the input determines.
    dynp: usize,
    /// Percent of steps that access memory at fixed places.
    memp: usize,
    /// Destinations off the beaten track.
    odd: Vec<usize>,
    /// Percent of steps that go by way of a tall stack.
    tallp: usize,
}

impl<'a> G<'a> {
    fn new(r: &'a mut Rng, fork: usize, weights: &[(u8, usize)]) -> Self {
        let n = r.below(80);
        let cd = r.bytes(n);
        let konst = *r.pick(&[20, 50, 80, 95]);
        Self { r, a: Asm::new(), h: 0, cd, fork, codelen: 200, konst, weights: weights.to_vec(), dynp: 0, memp: 0, odd: vec![], tallp: 0 }
    }

    fn value(&mut self, t: T) -> U256 {
        let r = &mut *self.r;
        match t {
            W => edge(r),
            E => match r.below(4) {
                0 => edge(r),
                1 => U256::from(r.below(5)),
                2 => U256::from(r.below(70000)),
                _ => U256::from(r.below(300)),
            },
            I => match r.below(6) {
                0 => edge(r),
                1 => *r.pick(&[U256::from(31), U256::from(32), U256::from(255), U256::from(256), U256::from(0), U256::from(30), U256::from(1)]),
                2 => U256::from(r.below(34)),
                _ => U256::from(r.below(260)),
            },
            O => match r.below(24) {
                0 => edge(r),
                1 => U256::from(r.below(5000)),
                2 => U256::from(1u64 << r.below(40)),
                3..=9 => U256::from(32 * r.below(8)),
                _ => U256::from(r.below(200)),
            },
            L => match r.below(24) {
                0 => edge(r),
                1 => U256::from(r.below(3000)),
                2..=6 => U256::ZERO,
                7..=10 => U256::from(32 * r.below(5)),
                _ => U256::from(r.below(100)),
            },
            D => match r.below(12) {
                0 => edge(r),
                1 => U256::from(self.cd.len()),
                2 => U256::from(self.cd.len().saturating_sub(r.below(40))),
                3 => U256::from(u64::MAX - r.below(4) as u64),
                _ => U256::from(r.below(self.codelen)),
            },
            A => {
                if r.pct(4) {
                    return edge(r);
                }
                let p = addr_pool();
                let a = U256::from_be_slice(&r.pick(&p).into_word().0);
                // Bits above the address are ignored.
                if r.pct(5) { a | (U256::from(r.next()) << 160) } else { a }
            }
            K => match r.below(12) {
                0 => edge(r),
                1 => U256::MAX,
                _ => U256::from(r.below(4)),
            },
            V => match r.below(6) {
                0 => edge(r),
                1 => U256::from(r.below(5)),
                _ => U256::ZERO,
            },
            T::G => match r.below(6) {
                0 => edge(r),
                1 => U256::ZERO,
                2 => U256::from(u64::MAX),
                _ => U256::from(r.below(200_000)),
            },
            N => match r.below(6) {
                0 => edge(r),
                1 => U256::from(1000),
                2 => U256::from(1000 - 256 - 1 + r.below(3)),
                _ => U256::from(1000 - r.below(260)),
            },
        }
    }

    fn push(&mut self, v: U256) {
        let bytes = v.to_be_bytes::<32>();
        let min = 32 - v.leading_zeros() / 8;
        let min = min.min(32);
        if v.is_zero() && self.fork >= SHANGHAI && self.r.pct(60) {
            self.a.op(0x5f);
        } else {
            let mut n = min.max(1);
            if self.r.pct(10) {
                n = self.r.range(n, 32);
            }
            self.a.push_bytes(&bytes[32 - n..]);
        }
        self.h += 1;
    }

    fn load_cd(&mut self, v: U256) -> usize {
        let at = self.cd.len();
        self.cd.extend(v.to_be_bytes::<32>());
        self.push(U256::from(at));
        self.a.op(0x35);
        at
    }

    fn push_as(&mut self, v: U256) {
        if self.r.pct(self.konst) {
            match self.r.below(12) {
                // A constant the compiler has to compute.
                0 => {
                    let y = edge(self.r);
                    self.push(y);
                    self.push(v.wrapping_sub(y));
                    self.a.op(0x01);
                    self.h -= 1;
                }
                1 => {
                    let y = edge(self.r);
                    self.push(y);
                    self.push(v ^ y);
                    self.a.op(0x18);
                    self.h -= 1;
                }
                2 => {
                    self.push(!v);
                    self.a.op(0x19);
                }
                3 => {
                    let y = edge(self.r);
                    self.push(y);
                    self.push(v.wrapping_add(y));
                    self.a.op(0x03);
                    self.h -= 1;
                }
                4 => {
                    self.push(v);
                    self.push(U256::from(1));
                    self.a.op(0x02);
                    self.h -= 1;
                }
                _ => self.push(v),
            }
        } else {
            self.load_cd(v);
        }
    }

    fn operand(&mut self, t: T) {
        if self.h > 0 && self.h < 1000 {
            let p = match t {
                W => 25,
                I | K | E => 8,
                _ => 2,
            };
            if self.r.pct(p) {
                let n = self.r.range(1, self.h.min(16));
                self.a.op(0x7f + n as u8);
                self.h += 1;
                return;
            }
        }
        let v = self.value(t);
        self.push_as(v);
    }

    fn shuffle(&mut self) {
        if self.h > 2 && self.r.pct(7) {
            // Drops what was just arranged.
            for _ in 0..self.r.range(1, (self.h - 1).min(6)) {
                self.a.op(0x50);
                self.h -= 1;
            }
            return;
        }
        match self.r.below(10) {
            0..=2 if self.h > 0 => {
                let n = self.r.range(1, self.h.min(16));
                self.a.op(0x7f + n as u8);
                self.h += 1;
            }
            3..=5 if self.h > 1 => {
                let n = self.r.range(1, (self.h - 1).min(16));
                self.a.op(0x8f + n as u8);
            }
            6 if self.h > 0 => {
                self.a.op(0x50);
                self.h -= 1;
            }
            7 if self.fork >= AMSTERDAM && self.h > 17 => {
                let n = self.r.range(17, self.h.min(235));
                let imm = if n >= 17 { ((n + 111) % 256) as u8 } else { 0 };
                self.a.op(if self.r.pct(50) || n + 1 > self.h {
                    self.h += 1;
                    0xe6
                } else {
                    0xe7
                });
                self.a.op(imm);
            }
            8 if self.fork >= AMSTERDAM && self.h > 2 => {
                self.a.op(0xe8);
                let mut x = self.r.next() as u8;
                for _ in 0..20 {
                    let k = x ^ 143;
                    let (q, r) = (k as usize / 16, k as usize % 16);
                    let m = if q < r { r + 1 } else { 29usize.saturating_sub(q) };
                    if x < 82 || x > 127 && m < self.h || self.r.pct(5) {
                        if m < self.h || self.r.pct(10) {
                            break;
                        }
                    }
                    x = self.r.next() as u8;
                }
                self.a.op(x);
                if self.r.pct(35) {
                    for _ in 0..self.r.range(1, (self.h - 1).min(4)) {
                        self.a.op(0x50);
                        self.h -= 1;
                    }
                }
            }
            9 => {
                let v = edge(self.r);
                self.push_as(v);
            }
            _ => {
                let v = edge(self.r);
                self.push(v);
            }
        }
    }

    fn any_op(&mut self) {
        let total: usize = self.weights.iter().map(|x| x.1).sum();
        let mut x = self.r.below(total);
        let mut class = b's';
        for (c, n) in &self.weights {
            if x < *n {
                class = *c;
                break;
            }
            x -= n;
        }
        if self.h > 24 && self.r.pct(40) {
            self.a.op(0x50);
            self.h -= 1;
            return;
        }
        if class == b's' {
            return self.shuffle();
        }
        let c: Vec<&Op> = OPS.iter().filter(|o| o.class == class && (o.fork <= self.fork)).collect();
        let any: Vec<&Op> = OPS.iter().filter(|o| o.class == class).collect();
        let op = if c.is_empty() || self.r.pct(1) { *self.r.pick(&any) } else { *self.r.pick(&c) };
        self.emit(op);
    }

    fn emit(&mut self, op: &Op) {
        let args = op.args;
        // Now and then take whatever is on the stack.
        if args.iter().all(|t| *t == W) && self.h >= args.len() && self.r.pct(30) {
        } else {
            for t in args.iter().rev() {
                self.operand(*t);
            }
        }
        self.a.op(op.o);
        self.h = (self.h + op.out).saturating_sub(args.len());
    }

    /// A memory access at a fixed place.
    fn fixed(&mut self) {
        let o = *self.r.pick(&[0u64, 1, 0x20, 0x40, 0x60, 0x80, 0xff, 0x100, 0x11f, 0x200]);
        let n = *self.r.pick(&[0u64, 1, 0x20, 0x21, 0x40]);
        let (o, n) = (U256::from(o), U256::from(n));
        match self.r.below(10) {
            0..=3 => {
                let v = edge(self.r);
                self.push_as(v);
                self.push(o);
                let x = if self.r.pct(80) { 0x52 } else { 0x53 };
                self.a.op(x);
                self.h -= 2;
            }
            4..=6 => {
                self.push(o);
                self.a.op(0x51);
                if self.r.pct(60) {
                    self.a.op(0x50);
                    self.h -= 1;
                }
            }
            7 => {
                self.push(n);
                self.push(o);
                self.a.op(0x20);
                self.h -= 1;
            }
            8 => {
                self.push(n);
                let v = U256::from(self.r.below(40));
                self.push_as(v);
                self.push(o);
                let x = if self.fork >= CANCUN && self.r.pct(50) { 0x5e } else { 0x37 };
                self.a.op(x);
                self.h -= 3;
            }
            _ => {
                self.a.op(0x59);
                self.h += 1;
            }
        }
    }

    /// Piles values up and takes them away again, in other blocks.
    fn tall(&mut self) {
        let n = match self.r.below(4) {
            0 => self.r.range(60, 68),
            1 => self.r.range(1, 130),
            2 => 64,
            _ => self.r.range(65, 75),
        };
        if self.h + n > 900 {
            return;
        }
        let k = self.r.next() as u8;
        for i in 0..n {
            self.a.push_bytes(&[k.wrapping_add(i as u8)]);
        }
        let go = |g: &mut Self| {
            let l = g.a.label();
            match g.r.below(4) {
                0 => {
                    g.cond_cd();
                    g.h -= 1;
                    g.a.push_label(l, 0);
                    g.a.op(0x57);
                }
                1 => {}
                _ => {
                    g.a.push_label(l, 0);
                    g.a.op(0x56);
                }
            }
            g.a.bind(l);
        };
        go(self);
        let mut left = n;
        if self.r.pct(40) {
            let m = self.r.below(left + 1);
            for _ in 0..m {
                self.a.op(0x50);
            }
            left -= m;
            go(self);
        }
        if left > 17 && self.r.pct(30) {
            // The bottom one comes up.
            self.a.op(0x9f);
            self.a.op(0x18);
            left -= 1;
        }
        for _ in 0..left {
            self.a.op(0x50);
        }
        if self.r.pct(30) {
            go(self);
        }
    }

    fn linear(&mut self, n: usize) {
        if self.tallp > 0 && self.r.pct(self.tallp) {
            self.tall();
        }
        for _ in 0..n {
            if self.memp > 0 && self.r.pct(self.memp) {
                self.fixed();
                continue;
            }
            self.any_op();
        }
    }

    /// Ends the program in some way.
    fn end(&mut self) {
        match self.r.below(16) {
            0 => self.a.op(0x00),
            1..=6 => {
                // Return what is on the stack.
                let n = self.h.min(6);
                for k in 0..n {
                    self.push(U256::from(0x100 + 32 * k));
                    self.a.op(0x52);
                }
                self.h -= n;
                self.push(U256::from(32 * n));
                self.push(U256::from(0x100));
                self.a.op(if self.r.pct(25) && self.fork >= BYZANTIUM { 0xfd } else { 0xf3 });
            }
            7 | 8 => {
                self.operand(L);
                self.operand(O);
                self.a.op(if self.r.pct(50) { 0xfd } else { 0xf3 });
            }
            9 => {
                self.operand(A);
                self.a.op(0xff);
            }
            10 => self.a.op(0xfe),
            11 => {
                let x = *self.r.pick(&[0x0c, 0x1f, 0x21, 0x4f, 0xa5, 0xb0, 0xc0, 0xef, 0xf6, 0xfb, 0xfc, 0x0e]);
                self.a.op(x);
            }
            12 => {
                // A push cut short by the end of the code.
                let n = self.r.range(1, 32);
                self.a.op(0x5f + n as u8);
                let k = self.r.below(n);
                let v = self.r.bytes(k);
                self.a.b.extend(v);
            }
            _ => {}
        }
    }

    fn adjust(&mut self, want: usize) {
        while self.h > want {
            self.a.op(0x50);
            self.h -= 1;
        }
        while self.h < want {
            if self.h > 0 && self.r.pct(40) {
                let n = self.r.range(1, self.h.min(16));
                self.a.op(0x7f + n as u8);
                self.h += 1;
            } else {
                let v = edge(self.r);
                self.push_as(v);
            }
        }
    }

    fn bad_dest(&mut self, l: usize) {
        match self.r.below(7) {
            0 => {
                self.a.push_label(l, 1);
                self.h += 1;
            }
            1 => {
                self.a.push_label(l, -1);
                self.h += 1;
            }
            2 => {
                // Low bits name a real destination.
                self.a.push_label(l, 0);
                self.h += 1;
                let s = *self.r.pick(&[16usize, 32, 63, 64, 128, 255]);
                self.push(U256::from(1) << s);
                self.a.op(0x17);
                self.h -= 1;
            }
            3 => self.push(U256::MAX),
            4 => {
                let v = U256::from(self.r.below(0x1_0000));
                self.push(v);
            }
            5 => self.push(U256::ZERO),
            _ => {
                let v = edge(self.r);
                self.push(v);
            }
        }
    }

    /// Pushes a destination by some route.
    fn dest(&mut self, l: usize) {
        if self.dynp > 0 && self.r.pct(self.dynp) {
            let at = self.load_cd(U256::ZERO);
            self.a.cdfix.push((at, l));
            return;
        }
        let l = if !self.odd.is_empty() && self.r.pct(8) { *self.r.pick(&self.odd) } else { l };
        match self.r.below(20) {
            0..=9 => {
                self.a.push_label(l, 0);
                self.h += 1;
            }
            10 | 11 => {
                let at = self.load_cd(U256::ZERO);
                self.a.cdfix.push((at, l));
            }
            12 => {
                let k = self.r.below(50) as i64;
                self.a.push_label(l, -k);
                self.h += 1;
                self.push(U256::from(k as u64));
                self.a.op(0x01);
                self.h -= 1;
            }
            13 => {
                self.a.push_label(l, 0);
                self.h += 1;
                let s = U256::from(0x300 + 32 * self.r.below(3));
                self.push(s);
                self.a.op(0x52);
                self.h -= 2;
                self.push(s);
                self.a.op(0x51);
            }
            14 if self.h >= 2 => {
                // Carried through a swap.
                self.a.push_label(l, 0);
                self.h += 1;
                self.a.op(0x91);
                self.shuffle_keep();
                self.a.op(0x91);
            }
            15 => {
                self.a.push_label(l, 0);
                self.h += 1;
                self.push(U256::from(0xffff));
                self.a.op(0x16);
                self.h -= 1;
            }
            16 => {
                // Chosen between two constants at run time; both name the label.
                self.a.push_label(l, 0);
                self.h += 1;
                let v = edge(self.r);
                self.load_cd(v);
                self.a.op(0x15);
                self.a.op(0x15);
                self.push(U256::from(0));
                self.a.op(0x02);
                self.h -= 1;
                self.a.op(0x01);
                self.h -= 1;
            }
            17 => self.bad_dest(l),
            _ => {
                self.a.push_label(l, 0);
                self.h += 1;
            }
        }
    }

    fn shuffle_keep(&mut self) {
        let v = edge(self.r);
        self.push(v);
        self.a.op(0x50);
        self.h -= 1;
    }

    fn cond(&mut self) {
        match self.r.below(8) {
            0 => self.push(U256::ZERO),
            1 => {
                let v = edge(self.r);
                self.push(v);
            }
            2 | 3 => {
                let v = if self.r.pct(50) { U256::ZERO } else { edge(self.r) };
                self.load_cd(v);
            }
            4 => {
                self.operand(W);
                self.operand(W);
                let o = *self.r.pick(&[0x10, 0x11, 0x12, 0x13, 0x14]);
                self.a.op(o);
                self.h -= 1;
            }
            5 => {
                self.operand(W);
                self.a.op(0x15);
                if self.r.pct(50) {
                    self.a.op(0x15);
                }
            }
            6 => {
                // Gas-dependent.
                self.a.op(0x5a);
                self.h += 1;
                self.push(U256::from(1));
                self.a.op(0x16);
                self.h -= 1;
            }
            _ => self.operand(W),
        }
    }

    /// Blocks with jumps between them.
    fn cfg(&mut self, nb: usize, per: usize) {
        let ls: Vec<usize> = (0..nb).map(|_| self.a.label()).collect();
        let hs: Vec<usize> = (0..nb).map(|_| self.r.below(5)).collect();
        let n = self.r.below(per + 1);
        self.linear(n);
        self.adjust(hs[0]);
        // Destinations inside immediates.
        if self.fork >= AMSTERDAM {
            for _ in 0..2 {
                let l = self.a.label();
                self.odd.push(l);
            }
        }
        let mut odd = self.odd.clone();
        // Blocks the analysis should find unreachable or jump-only entries.
        for b in 0..nb {
            if !odd.is_empty() && self.r.pct(40) {
                if self.r.pct(70) {
                    self.a.op(0x00);
                }
                let o = *self.r.pick(&[0xe6, 0xe7, 0xe8]);
                self.a.op(o);
                let l = odd.pop().unwrap();
                self.a.bind(l);
                let n = self.r.below(2);
                self.h = 2;
                self.linear(n);
                self.adjust(hs[b]);
            }
            if self.r.pct(8) {
                // Unreachable filler between blocks.
                self.a.op(0x00);
                let k = self.r.below(6);
                let v = self.r.bytes(k);
                self.a.b.extend(v);
                if self.r.pct(50) {
                    self.a.op(0x5b);
                }
                self.a.op(0x00);
            }
            self.a.bind(ls[b]);
            self.h = hs[b];
            let n = self.r.below(per + 1);
            self.linear(n);
            let t = self.r.below(nb);
            let back = t <= b;
            // Favour progress.
            let t = if back && self.r.pct(60) { (b + 1 + self.r.below(nb)).min(nb - 1) } else { t };
            match self.r.below(16) {
                0..=2 => {
                    self.adjust(hs[t]);
                    self.dest(ls[t]);
                    self.a.op(0x56);
                }
                3..=8 => {
                    if self.r.pct(92) {
                        self.adjust(hs[t]);
                    }
                    self.cond();
                    self.dest(ls[t]);
                    self.a.op(0x57);
                    self.h -= 2;
                    if b + 1 < nb && self.r.pct(92) {
                        self.adjust(hs[b + 1]);
                    }
                }
                9 => {
                    self.cond();
                    self.bad_dest(ls[t]);
                    self.a.op(0x57);
                    self.h -= 2;
                    if b + 1 < nb {
                        self.adjust(hs[b + 1]);
                    }
                }
                10 => self.end(),
                11 => {
                    // Two constants selected by a branch, then one jump.
                    let t2 = self.r.below(nb);
                    let (x, y) = (self.a.label(), self.a.label());
                    let hh = hs[t].max(hs[t2]);
                    self.adjust(hh);
                    self.cond();
                    self.a.push_label(x, 0);
                    self.a.op(0x57);
                    self.h -= 1;
                    self.a.push_label(ls[t], 0);
                    self.a.push_label(y, 0);
                    self.a.op(0x56);
                    self.a.bind(x);
                    self.a.push_label(ls[t2], 0);
                    if self.r.pct(30) {
                        self.a.push_label(y, 0);
                        self.a.op(0x56);
                    }
                    self.a.bind(y);
                    self.a.op(0x56);
                }
                _ => {
                    if b + 1 < nb && self.r.pct(95) {
                        self.adjust(hs[b + 1]);
                    }
                }
            }
        }
        self.end();
    }

    /// Arms chosen by the input that meet again in shared tails.
    fn fan(&mut self, per: usize) {
        let k = self.r.range(2, 4);
        let nt = self.r.range(1, 3);
        let arms: Vec<usize> = (0..k).map(|_| self.a.label()).collect();
        let tails: Vec<usize> = (0..nt).map(|_| self.a.label()).collect();
        let hs: Vec<usize> = (0..nt).map(|_| self.r.below(4)).collect();
        if self.r.pct(40) {
            self.linear(1);
        }
        let h = self.r.below(3);
        self.adjust(h);
        for l in &arms {
            let v = if self.r.pct(50) { U256::ZERO } else { U256::from(1) };
            self.load_cd(v);
            if self.r.pct(85) {
                self.a.push_label(*l, 0);
                self.h += 1;
            } else {
                self.dest(*l);
            }
            self.a.op(0x57);
            self.h -= 2;
        }
        for b in 0..=k {
            if b > 0 {
                self.a.bind(arms[b - 1]);
                self.h = h;
            }
            if self.r.pct(70) {
                let n = self.r.below(per + 1);
                self.linear(n);
            }
            let t = self.r.below(nt);
            self.adjust(hs[t]);
            self.dest(tails[t]);
            if self.r.pct(15) {
                self.cond();
                self.a.op(0x90);
                self.a.op(0x57);
                self.h -= 2;
                self.end();
                self.a.op(0x00);
            } else {
                self.a.op(0x56);
            }
        }
        for t in 0..nt {
            self.a.bind(tails[t]);
            self.h = hs[t];
            let n = self.r.range(1, per);
            self.linear(n);
            if t + 1 < nt && self.r.pct(60) {
                let u = self.r.range(t + 1, nt - 1);
                if self.r.pct(40) {
                    self.cond();
                    self.adjust(hs[u] + 1);
                    self.dest(tails[u]);
                    self.a.op(0x57);
                    self.h -= 2;
                    self.end();
                } else {
                    self.adjust(hs[u]);
                    self.dest(tails[u]);
                    self.a.op(0x56);
                }
            } else {
                self.end();
            }
            self.a.op(0x00);
        }
    }

    /// Subroutines with return addresses on the stack.
    fn subs(&mut self) {
        let nf = self.r.range(1, 4);
        let fs: Vec<usize> = (0..nf).map(|_| self.a.label()).collect();
        let ar: Vec<usize> = (0..nf).map(|_| self.r.below(3)).collect();
        let rs: Vec<usize> = (0..nf).map(|_| self.r.below(3)).collect();
        let sites = self.r.range(1, 6);
        for _ in 0..sites {
            let n = self.r.below(3);
            self.linear(n);
            let f = self.r.below(nf);
            self.call_sub(fs[f], ar[f], rs[f]);
            if self.r.pct(20) {
                // Skip ahead conditionally.
                let l = self.a.label();
                let h = self.h;
                self.cond();
                self.a.push_label(l, 0);
                self.a.op(0x57);
                self.h = h;
                self.linear(1);
                self.adjust(h);
                self.a.bind(l);
            }
        }
        self.end();
        self.a.op(0x00);
        for f in 0..nf {
            // Stack: ret, args...; leave: results, jump to ret.
            self.a.bind(fs[f]);
            self.h = 1 + ar[f];
            let n = self.r.below(4);
            let base = self.h;
            for _ in 0..n {
                self.any_op();
                if self.h < 1 {
                    self.h = 1;
                }
            }
            if f + 1 < nf && self.r.pct(50) {
                let g = self.r.range(f + 1, nf - 1);
                self.call_sub(fs[g], ar[g], rs[g]);
            } else if self.r.pct(12) {
                // Conditional self-recursion on a shrinking calldata-driven counter in memory.
                let out = self.a.label();
                self.push(U256::from(0x3e0));
                self.a.op(0x51);
                self.push(U256::from(1));
                self.a.op(0x01);
                self.a.op(0x80);
                self.push(U256::from(0x3e0));
                self.a.op(0x52);
                self.h -= 2;
                self.push(U256::from(3));
                self.a.op(0x10); // 3 < counter
                self.h -= 1;
                self.a.push_label(out, 0);
                self.a.op(0x57);
                self.h -= 1;
                let h = self.h;
                self.call_sub(fs[f], ar[f], rs[f]);
                self.adjust(h);
                self.a.bind(out);
            }
            let _ = base;
            self.adjust(1 + rs[f]);
            match rs[f] {
                0 => {}
                1 => self.a.op(0x90),
                _ => {
                    self.a.op(0x91);
                }
            }
            if self.r.pct(15) {
                // Returns from two places.
                self.cond();
                let l = self.a.label();
                self.a.push_label(l, 0);
                self.a.op(0x57);
                self.h -= 1;
                self.a.op(0x56);
                self.a.bind(l);
            }
            self.a.op(0x56);
        }
    }

    fn call_sub(&mut self, f: usize, ar: usize, rs: usize) {
        let ret = self.a.label();
        let h = self.h;
        self.a.push_label(ret, 0);
        self.h += 1;
        for _ in 0..ar {
            let v = edge(self.r);
            self.push_as(v);
        }
        if self.r.pct(90) {
            self.a.push_label(f, 0);
            self.h += 1;
        } else {
            self.dest(f);
        }
        self.a.op(0x56);
        if self.r.pct(5) {
            self.a.op(0xfe);
        }
        self.a.bind(ret);
        self.h = h + rs;
    }

    /// Copies of the same block, reached from different places.
    fn dups(&mut self) {
        let k = self.r.range(2, 5);
        let join = self.a.label();
        let join2 = self.a.label();
        let kind = self.r.below(10);
        // One template.
        let mut t = Vec::new();
        let v = self.r.next() as u8;
        match kind {
            0 => t.extend([0x60, v, 0x60, 0x00, 0x52, 0x60, 0x20, 0x60, 0x00, 0xfd]),
            1 => t.extend([0x60, 0x00, 0x80, 0xfd]),
            2 => t.extend([0x60, v, 0x01]),
            3 => t.extend([0x60, v, 0x60, 0x01, 0x55, 0x00]),
            4 => t.extend([0x58, 0x60, 0x00, 0x52, 0x60, 0x20, 0x60, 0x00, 0xf3]),
            5 => t.extend([0x5a, 0x50, 0x60, v, 0x18]),
            6 => t.extend([0x60, v, 0x60, 0x40, 0x52, 0x00]),
            // Returns to an address below the value.
            8 => t.extend([0x60, v, 0x01, 0x90, 0x56]),
            9 => t.extend([0x60, v, 0x01, 0x81, 0x56]),
            _ => t.extend([0x80, 0x60, v, 0x10, 0x15]),
        }
        let ls: Vec<usize> = (0..k).map(|_| self.a.label()).collect();
        let base = self.r.range(1, 3);
        self.adjust(base);
        for l in &ls {
            let n = self.r.below(2);
            self.linear(n);
            if kind >= 8 {
                self.adjust(0);
                let j = *self.r.pick(&[join, join2]);
                self.a.push_label(j, 0);
                let x = edge(self.r);
                self.push_as(x);
                self.h = 2;
            }
            let base = if kind >= 8 { 2 } else { base };
            self.adjust(base);
            self.cond();
            self.dest(*l);
            self.a.op(0x57);
            self.h = base;
        }
        let base = if kind >= 8 { 2 } else { base };
        self.adjust(base);
        let h = self.h;
        for (i, l) in ls.iter().enumerate() {
            self.a.bind(*l);
            self.h = h;
            let mut tt = t.clone();
            if i > 0 && self.r.pct(15) {
                // Almost the same.
                let n = self.r.below(tt.len());
                if tt[n] == v {
                    tt[n] ^= 1;
                }
            }
            self.a.b.extend(&tt);
            if !matches!(tt.last(), Some(0x00 | 0xfd | 0xf3 | 0x56)) {
                let j = if self.r.pct(75) { join } else { join2 };
                self.a.push_label(j, 0);
                self.a.op(0x56);
            }
        }
        for j in [join, join2] {
            self.a.bind(j);
            self.h = 1;
            let n = self.r.below(3);
            self.linear(n);
            self.end();
        }
    }

    /// Blocks that differ in as little as possible: an immediate, the width of a push, an instruction more or less,
    /// a byte that is part of an immediate in one and an instruction in the other.
    fn twins(&mut self) {
        let n = self.r.range(2, 5);
        for i in 0..self.r.range(4, 9) {
            self.push(U256::from(7 + 3 * i));
        }
        let big = edge(self.r);
        if self.r.pct(50) {
            self.push(big);
        }
        let h = self.h;
        let imm = |r: &mut Rng, w: usize| -> Vec<u8> {
            let mut v = vec![0u8; w];
            match r.below(5) {
                0 | 1 => {}
                2 | 3 => {
                    let i = if r.pct(50) { 0 } else { r.below(w) };
                    v[i] = *r.pick(&[0x80, 0x80, 0x80, 0x01, 0x81, 0x90]);
                }
                _ => {
                    let b = big.to_be_bytes::<32>();
                    v.copy_from_slice(&b[32 - w..]);
                }
            }
            v
        };
        let small = [0x80u8, 0x80, 0x81, 0x82, 0x90, 0x91, 0x01, 0x18, 0x19, 0x15, 0x50, 0x03];
        // The template: instructions with their immediates.
        let widths = [1usize, 2, 3, 3, 4, 4, 5, 8, 32];
        let mut t: Vec<Vec<u8>> = vec![];
        for _ in 0..self.r.range(1, 3) {
            match self.r.below(8) {
                0 if self.fork >= AMSTERDAM => {
                    let o = *self.r.pick(&[0xe6, 0xe7, 0xe8]);
                    let x = *self.r.pick(&[0x80, 0x81, 0x00, 0x9d, 0x8e, 0x01]);
                    t.push(vec![o, x]);
                }
                0..=1 => t.push(vec![*self.r.pick(&small)]),
                _ => {
                    let w = *self.r.pick(&widths);
                    let mut x = vec![0x5f + w as u8];
                    x.extend(imm(self.r, w));
                    t.push(x);
                }
            }
        }
        // Where the instruction sits may matter, and it may sit far into the block.
        if self.r.pct(15) {
            t.push(vec![0x58]);
            t.push(vec![*self.r.pick(&[0x18, 0x01, 0x03])]);
        }
        if self.r.pct(20) {
            for _ in 0..self.r.range(1, 40) {
                let o = *self.r.pick(&[0x30u8, 0x33, 0x36, 0x3d]);
                t.splice(0..0, [vec![o], vec![0x50]]);
            }
        }
        let mut all = vec![];
        for i in 0..n {
            let mut b = t.clone();
            for _ in 0..if i == 0 { 0 } else { self.r.range(0, 2) } {
                let k = self.r.below(b.len());
                match *self.r.pick(&[0, 1, 2, 2, 3, 4, 5]) {
                    0 => {
                        let x = *self.r.pick(&small);
                        b.insert(k + 1, vec![x]);
                    }
                    1 if b.len() > 1 => {
                        b.remove(k);
                    }
                    2 if b[k].len() > 1 => {
                        // A byte of the immediate becomes an instruction.
                        let j = self.r.range(1, b[k].len() - 1);
                        let x = std::mem::take(&mut b[k][j]);
                        b.insert(k + 1, vec![x | if self.r.pct(30) { 0x80 } else { 0 }]);
                    }
                    3 if b[k].len() > 1 && b[k][0] < 0x80 => {
                        // Another width.
                        let w = *self.r.pick(&widths);
                        let mut v = vec![0u8; w];
                        for (x, y) in v.iter_mut().rev().zip(b[k][1..].iter().rev()) {
                            *x = *y;
                        }
                        b[k] = [vec![0x5f + w as u8], v].concat();
                    }
                    _ if b[k].len() > 1 && b[k][0] < 0x80 => {
                        let w = b[k].len() - 1;
                        let v = imm(self.r, w);
                        b[k].truncate(1);
                        b[k].extend(v);
                        if self.r.pct(30) {
                            let x = *self.r.pick(&small);
                            b.insert(k + 1, vec![x]);
                        }
                    }
                    _ => {}
                }
            }
            all.push(b.concat());
        }
        let join = self.a.label();
        let end: Vec<u8> = match self.r.below(4) {
            0 => hex::decode("6000526020526040526060600060205100").unwrap(),
            1 => vec![0x55, 0x55, 0x00],
            2 => vec![],
            _ => hex::decode("60005260205260405260606000f3").unwrap(),
        };
        let labels = self.r.pct(50);
        let ls: Vec<usize> = all.iter().map(|_| self.a.label()).collect();
        if labels {
            for l in &ls[1..] {
                self.cond_cd();
                self.a.push_label(*l, 0);
                self.a.op(0x57);
                self.h = h;
            }
        }
        for (i, b) in all.iter().enumerate() {
            if labels {
                if i > 0 {
                    self.a.bind(ls[i]);
                } else if self.r.pct(50) {
                    self.a.push_label(ls[0], 0);
                    self.a.op(0x56);
                    self.a.bind(ls[0]);
                }
            } else if i + 1 < all.len() {
                self.cond_cd();
                self.a.push_label(ls[i], 0);
                self.a.op(0x57);
                self.h = h;
            }
            self.a.b.extend(b);
            self.a.b.extend(&end);
            if end.is_empty() {
                self.a.push_label(join, 0);
                self.a.op(0x56);
            }
            if !labels && i + 1 < all.len() {
                self.a.bind(ls[i]);
            }
        }
        self.a.bind(join);
        self.a.b.extend(hex::decode("60005260205260405260606000f3").unwrap());
        self.h = 0;
    }

    /// Many callers of long functions: what is known about a block keeps changing for a long time.
    fn crowd(&mut self) {
        let nf = self.r.range(1, 2);
        let fs: Vec<usize> = (0..nf).map(|_| self.a.label()).collect();
        let callers = self.r.range(4, 30);
        self.push(U256::from(3));
        for _ in 0..callers {
            let back = self.a.label();
            let f = *self.r.pick(&fs);
            if self.r.pct(15) {
                self.cond_cd();
                self.h -= 1;
                self.a.push_label(back, 0);
                self.a.op(0x57);
            }
            // The accumulator, a constant, and where to go back to.
            match self.r.below(4) {
                0 => self.a.op(0x80),
                1 => {
                    let v = edge(self.r);
                    self.push(v);
                    self.h -= 1;
                }
                _ => {
                    let v = self.r.next() as u8 % 4;
                    self.a.push_bytes(&[v]);
                }
            }
            self.a.push_label(back, 0);
            self.a.op(0x91);
            self.a.op(0x01);
            self.a.push_label(f, 0);
            self.a.op(0x56);
            self.a.bind(back);
        }
        self.a.b.extend(hex::decode("60005260206000f3").unwrap());
        // Functions take the value on top of the return address.
        for (i, f) in fs.iter().enumerate() {
            self.a.bind(*f);
            for _ in 0..self.r.range(1, 30) {
                match self.r.below(6) {
                    0 => self.a.b.extend([0x60, 0x07, 0x18]),
                    1 => self.a.b.extend([0x80, 0x60, 0x20, 0x52]),
                    2 => self.a.b.extend([0x60, 0x20, 0x51, 0x01]),
                    _ => {}
                }
                let l = self.a.label();
                if self.r.pct(70) {
                    if self.r.pct(30) {
                        self.a.op(0x80);
                    } else {
                        self.cond_cd();
                        self.h -= 1;
                    }
                    self.a.push_label(l, 0);
                    self.a.op(0x57);
                    if self.r.pct(40) {
                        self.a.b.extend([0x60, 0x05, 0x01]);
                    }
                }
                if i + 1 < nf && self.r.pct(8) {
                    let back = self.a.label();
                    self.a.push_label(back, 0);
                    self.a.op(0x90);
                    self.a.push_label(fs[i + 1], 0);
                    self.a.op(0x56);
                    self.a.bind(back);
                }
                self.a.bind(l);
            }
            self.a.op(0x90);
            self.a.op(0x56);
        }
        self.h = 0;
    }

    /// Layers of copied blocks and functions whose copies only become equal once what they lead to has been merged.
    /// Every destination is a constant; one accumulator stays on the stack.
    fn webs(&mut self) {
        // What each layer's blocks do to the accumulator.
        let body = |r: &mut Rng| -> Vec<u8> {
            let v = r.next() as u8;
            match r.below(8) {
                0 => vec![],
                1 => vec![0x60, v, 0x01],
                2 => vec![0x80, 0x60, v, 0x10, 0x18],
                3 => vec![0x80, 0x60, 0x20 * (v % 4), 0x52],
                4 => vec![0x60, v, 0x60, v % 3, 0x55],
                5 => vec![0x5a, 0x50, 0x19],
                6 => vec![0x58, 0x18],
                _ => vec![0x60, v, 0x02, 0x60, 0x07, 0x18],
            }
        };
        let layers = self.r.range(2, 5);
        // Labels of the copies, per layer and template.
        let mut web: Vec<Vec<(Vec<u8>, Vec<usize>)>> = vec![];
        for _ in 0..layers {
            let n = self.r.range(1, 2);
            let mut l = vec![];
            for _ in 0..n {
                let b = body(self.r);
                let k = self.r.range(1, 3);
                let ls = (0..k).map(|_| self.a.label()).collect();
                l.push((b, ls));
            }
            web.push(l);
        }
        let all: Vec<usize> = web.iter().flatten().flat_map(|t| t.1.clone()).collect();
        // Functions: the return address on top of the accumulator.
        let nf = self.r.range(0, 3);
        let mut fs: Vec<(usize, Vec<u8>, usize)> = vec![];
        for _ in 0..nf {
            let b = body(self.r);
            let form = self.r.below(6);
            for _ in 0..self.r.range(1, 3) {
                let l = self.a.label();
                fs.push((l, b.clone(), form));
            }
        }
        let v = edge(self.r);
        self.push_as(v);
        self.h = 1;
        let steps = self.r.range(1, 5);
        for _ in 0..steps {
            if self.tallp > 0 && self.r.pct(self.tallp) {
                self.tall();
            }
            match self.r.below(4) {
                0 | 1 if !fs.is_empty() => {
                    let f = self.r.pick(&fs).0;
                    let back = self.a.label();
                    let to = if self.r.pct(35) { *self.r.pick(&all) } else { back };
                    if to != back {
                        // Only sometimes, so that what follows is reached too.
                        self.cond_cd();
                        self.a.push_label(back, 0);
                        self.a.op(0x57);
                        self.h = 1;
                    }
                    self.a.push_label(to, 0);
                    self.a.push_label(f, 0);
                    self.a.op(0x56);
                    self.a.bind(back);
                }
                2 => {
                    // Falls into a copy that has no label.
                    let l = self.a.label();
                    self.cond_cd();
                    self.a.push_label(l, 0);
                    self.a.op(0x57);
                    self.h = 1;
                    let k = self.r.below(layers - 1);
                    let t = self.r.pick(&web[k]).0.clone();
                    self.a.b.extend(t);
                    let n = self.r.pick(&web[k + 1]).1.clone();
                    let to = *self.r.pick(&n);
                    self.a.push_label(to, 0);
                    self.a.op(0x56);
                    self.a.bind(l);
                }
                _ => {
                    self.cond_cd();
                    let to = *self.r.pick(&all);
                    self.a.push_label(to, 0);
                    self.a.op(0x57);
                }
            }
            self.h = 1;
        }
        let to = *self.r.pick(&all);
        self.a.push_label(to, 0);
        self.a.op(0x56);
        // The blocks in any order: (layer, template, copy) or a function.
        let mut order: Vec<(usize, usize, usize)> = vec![];
        for (i, l) in web.iter().enumerate() {
            for (j, t) in l.iter().enumerate() {
                order.extend((0..t.1.len()).map(|k| (i, j, k)));
            }
        }
        order.extend((0..fs.len()).map(|k| (usize::MAX, 0, k)));
        for i in (1..order.len()).rev() {
            let j = self.r.below(i + 1);
            order.swap(i, j);
        }
        let last = self.r.below(5);
        let ends: Vec<usize> = (0..2).map(|_| self.r.below(layers.max(2))).collect();
        for (i, j, k) in order {
            self.h = 1;
            if i == usize::MAX {
                let (l, b, form) = fs[k].clone();
                self.a.bind(l);
                match form {
                    // Only goes back.
                    0 => {}
                    // Goes back early on some inputs.
                    1 | 2 => {
                        self.h = 2;
                        if form == 1 {
                            self.a.op(0x80);
                            self.h = 3;
                        }
                        self.cond_cd();
                        self.a.op(0x90);
                        self.a.op(0x57);
                        if form == 2 {
                            let to = *self.r.pick(&all);
                            self.a.b.extend(&b);
                            self.a.push_label(to, 0);
                            self.a.op(0x56);
                            continue;
                        }
                    }
                    _ => {}
                }
                if form > 0 {
                    self.a.op(0x90);
                    self.a.b.extend(&b);
                    self.a.op(0x90);
                }
                if form == 5 && self.r.pct(50) {
                    // By way of another function.
                    let g = self.r.pick(&fs).0;
                    if self.a.labels[g].is_none() {
                        self.a.push_label(g, 0);
                    }
                }
                self.a.op(0x56);
                continue;
            }
            self.a.bind(web[i][j].1[k]);
            let mut b = web[i][j].0.clone();
            if !b.is_empty() && self.r.pct(6) {
                // Almost the same.
                let x = self.r.below(b.len());
                if b[x] < 0x10 {
                    b[x] ^= 1;
                }
            }
            self.a.b.extend(&b);
            if i + 1 == layers {
                match last {
                    0 => self.a.b.extend([0x60, 0x00, 0x52, 0x60, 0x20, 0x60, 0x00, 0xf3]),
                    1 => self.a.b.extend([0x60, 0x00, 0x52, 0x60, 0x20, 0x60, 0x00, 0xfd]),
                    2 => self.a.op(0x00),
                    3 => self.a.b.extend([0x60, 0x01, 0x55, 0x00]),
                    _ => self.a.b.extend([0x60, 0x00, 0x52, 0x60, 0x80, 0x60, 0x00, 0xf3]),
                }
                continue;
            }
            // Copies of a template lead to copies of one template.
            let n = web[i + 1].len();
            let t = if self.r.pct(85) { ends[j % 2] % n } else { self.r.below(n) };
            let ls = web[i + 1][t].1.clone();
            let to = *self.r.pick(&ls);
            if self.r.pct(8) {
                self.cond_cd();
                self.a.push_label(to, 0);
                self.a.op(0x57);
                let to = *self.r.pick(&ls);
                self.a.push_label(to, 0);
            } else {
                self.a.push_label(to, 0);
            }
            self.a.op(0x56);
        }
    }

    /// Chains of blocks that each go where the stack says, prepared at the start: copies resolve to one or several
    /// destinations and become equal only after those have been merged.
    fn threads(&mut self) {
        let layers = self.r.range(2, 4);
        let mut web: Vec<(Vec<u8>, Vec<usize>)> = vec![];
        for _ in 0..layers {
            let v = self.r.next() as u8;
            let b = match self.r.below(6) {
                0 | 1 => vec![],
                2 => vec![0x60, v, 0x60, 0x20 * (v % 4), 0x52],
                3 => vec![0x60, v, 0x60, v % 3, 0x55],
                4 => vec![0x5a, 0x50],
                _ => vec![0x60, 0x40, 0x51, 0x60, v, 0x01, 0x60, 0x40, 0x52],
            };
            let k = self.r.range(1, 4);
            let ls = (0..k).map(|_| self.a.label()).collect();
            web.push((b, ls));
        }
        let v = edge(self.r);
        self.push_as(v);
        let n = self.r.range(2, 6);
        for i in 0..n {
            let skip = self.a.label();
            if i + 1 < n {
                self.cond_cd();
                self.a.push_label(skip, 0);
                self.a.op(0x57);
            }
            let same = self.r.pct(30);
            for (_, ls) in web.clone().iter().rev() {
                let to = if same { ls[i % ls.len()] } else { *self.r.pick(ls) };
                self.a.push_label(to, 0);
            }
            self.a.op(0x56);
            if i + 1 < n {
                self.a.bind(skip);
            }
            self.h = 1;
        }
        let mut order: Vec<(usize, usize)> = vec![];
        for (i, t) in web.iter().enumerate() {
            order.extend((0..t.1.len()).map(|k| (i, k)));
        }
        if self.r.pct(60) {
            for i in (1..order.len()).rev() {
                let j = self.r.below(i + 1);
                order.swap(i, j);
            }
        }
        let last: &[u8] = match self.r.below(4) {
            0 => &[0x60, 0x60, 0x52, 0x60, 0x80, 0x60, 0x00, 0xf3],
            1 => &[0x60, 0x60, 0x52, 0x60, 0x80, 0x60, 0x00, 0xfd],
            2 => &[0x60, 0x01, 0x55, 0x00],
            _ => &[0x00],
        };
        let early = self.r.below(100);
        for (i, k) in order {
            self.a.bind(web[i].1[k]);
            if early < 8 && i == 0 {
                // Sometimes on to the next at once.
                self.a.op(0x80);
                self.cond_cd();
                self.a.op(0x90);
                self.a.op(0x57);
            }
            self.a.b.extend(web[i].0.clone());
            if self.tallp > 0 && self.r.pct(self.tallp) {
                self.tall();
            }
            if i + 1 == layers {
                self.a.b.extend(last);
            } else {
                self.a.op(0x56);
            }
        }
        self.h = 0;
    }

    /// A condition only the input decides.
    fn cond_cd(&mut self) {
        let v = match self.r.below(5) {
            0 | 1 => U256::ZERO,
            2 => U256::from(1),
            _ => edge(self.r),
        };
        self.load_cd(v);
    }

    /// Stacks close to the limit.
    fn deep(&mut self) {
        let target = match self.r.below(5) {
            0 => 1024,
            1 => 1025,
            _ => 1024 - self.r.below(20),
        };
        if self.r.pct(45) {
            // A loop that grows the stack by k per turn.
            let k = self.r.range(1, 4);
            let l = self.a.label();
            let turns = target / k;
            self.push(U256::from(turns)); // counter in memory
            self.push(U256::from(0));
            self.a.op(0x52);
            self.h -= 2;
            self.a.bind(l);
            for _ in 0..k {
                if self.r.pct(50) {
                    self.a.op(0x59);
                } else {
                    self.a.push_bytes(&[7]);
                }
            }
            self.push(U256::from(1));
            self.push(U256::from(0));
            self.a.op(0x51);
            self.a.op(0x03);
            self.a.op(0x80);
            self.push(U256::from(0));
            self.a.op(0x52);
            self.a.push_label(l, 0);
            self.a.op(0x57);
            self.h = turns * k;
        } else {
            if self.r.pct(50) {
                self.linear(2);
            }
            while self.h < target {
                if self.h > 0 && self.r.pct(50) {
                    let n = self.r.range(1, self.h.min(16));
                    self.a.op(0x7f + n as u8);
                    self.h += 1;
                } else {
                    self.a.push_bytes(&[9]);
                    self.h += 1;
                }
                if self.r.pct(2) {
                    let l = self.a.label();
                    self.a.bind(l);
                }
            }
        }
        let n = self.r.below(8);
        for _ in 0..n {
            match self.r.below(8) {
                0 => self.a.op(0x50),
                1 => self.a.op(0x80),
                2 => self.a.op(0x01),
                3 => {
                    let l = self.a.label();
                    self.a.bind(l);
                }
                4 => {
                    self.a.op(0x34);
                }
                5 => {
                    // A call: needs room only for its result.
                    for _ in 0..self.r.below(7) {
                        self.a.op(0x50);
                    }
                    self.a.op(0xf1);
                }
                6 => self.shuffle(),
                _ => self.any_op(),
            }
        }
        self.h = self.h.max(8);
        self.end();
    }

    /// Operations that need more than the stack holds.
    fn under(&mut self) {
        let n = self.r.below(6);
        self.linear(n);
        if self.r.pct(50) {
            // Lose the known height at a join.
            let l = self.a.label();
            let h = self.h;
            self.cond();
            self.a.push_label(l, 0);
            self.a.op(0x57);
            self.h = h;
            for _ in 0..self.r.below(4) {
                if self.h > 0 {
                    self.a.op(0x50);
                    self.h -= 1;
                }
            }
            self.a.bind(l);
        }
        let k = self.r.below(self.h + 3);
        for _ in 0..k {
            self.a.op(0x50);
        }
        let o = match self.r.below(4) {
            0 => 0x7f + self.r.range(1, 16) as u8,
            1 => 0x8f + self.r.range(1, 16) as u8,
            _ => self.r.pick(OPS).o,
        };
        self.a.op(o);
        self.h = 2;
        let n = self.r.below(3);
        self.linear(n);
        self.end();
    }

    fn random_ops(&mut self, n: usize) {
        for _ in 0..n {
            match self.r.below(10) {
                0..=2 => {
                    let v = self.value(*[W, I, O, L, A, K].get(self.r.clone().below(6)).unwrap());
                    self.r.next();
                    self.push(v);
                }
                3 => self.a.op(0x5b),
                4 => {
                    let v = U256::from(self.r.below(n * 2));
                    self.push(v);
                    self.a.op(if self.r.pct(50) { 0x56 } else { 0x57 });
                }
                5 => {
                    let x = self.r.next() as u8;
                    self.a.op(x);
                }
                6 => {
                    let x = 0x80 + self.r.below(32) as u8;
                    self.a.op(x);
                }
                _ => {
                    let o = self.r.pick(OPS).o;
                    self.a.op(o);
                }
            }
        }
    }
}

pub fn corpus() -> &'static Vec<(String, Vec<u8>, Vec<Vec<u8>>)> {
    static C: OnceLock<Vec<(String, Vec<u8>, Vec<Vec<u8>>)>> = OnceLock::new();
    C.get_or_init(|| {
        let dir = std::env::var("EVMH_DATA").unwrap_or_else(|_| "/repo/data".into());
        let mut v = vec![];
        let Ok(rd) = std::fs::read_dir(dir) else { return v };
        let mut files: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        files.sort();
        for p in files {
            let Ok(s) = std::fs::read_to_string(&p) else { continue };
            if s.len() > 100_000 {
                continue;
            }
            let Ok(j) = serde_json::from_str::<serde_json::Value>(&s) else { continue };
            // Any long hex string is code; shorter ones are calldata.
            let mut codes = vec![];
            let mut cds = vec![];
            fn walk(j: &serde_json::Value, key: &str, codes: &mut Vec<Vec<u8>>, cds: &mut Vec<Vec<u8>>) {
                match j {
                    serde_json::Value::String(s) => {
                        if let Ok(b) = hex::decode(s) {
                            if key.contains("code") && b.len() > 8 {
                                codes.push(b);
                            } else if key.contains("data") || key.contains("input") {
                                cds.push(b);
                            }
                        }
                    }
                    serde_json::Value::Array(a) => a.iter().for_each(|x| walk(x, key, codes, cds)),
                    serde_json::Value::Object(o) => o.iter().for_each(|(k, x)| walk(x, k, codes, cds)),
                    _ => {}
                }
            }
            walk(&j, "", &mut codes, &mut cds);
            for c in codes {
                v.push((p.file_stem().unwrap().to_string_lossy().into_owned(), c, cds.clone()));
            }
        }
        v
    })
}

fn env(r: &mut Rng) -> Env {
    let word = |r: &mut Rng| if r.pct(80) { w(U256::from(r.next() >> 20)) } else { w(edge(r)) };
    Env {
        origin: addr_w(a20(0xcc)),
        gasprice: word(r),
        coinbase: addr_w(a20(0xcb)),
        timestamp: w(U256::from(r.next() >> 30)),
        number: w(U256::from(if r.pct(80) { 1000 } else { r.below(300) })),
        difficulty: word(r),
        prevrandao: w(edge(r)),
        gaslimit: w(U256::from(30_000_000u64)),
        chainid: word(r),
        basefee: word(r),
        blobbasefee: word(r),
        slotnum: word(r),
        blobhashes: (0..r.below(4)).map(|_| w(edge(r))).collect(),
        maxinit: if r.pct(80) { 49152 } else { 64 },
    }
}

fn accts(r: &mut Rng, fork: usize) -> Vec<Acct> {
    let mut v = vec![];
    let mut add = |r: &mut Rng, a: Address, bal: U256, nonce: u64, code: Vec<u8>, warm: usize, exists: bool| {
        v.push(Acct { a: addr_w(a), bal: w(bal), nonce, code: hex::encode(code), warm: r.pct(warm), exists });
    };
    let b = if r.pct(60) { U256::from(r.below(1_000_000)) } else { edge(r) >> 2 };
    add(r, this(), b, 1, vec![0x00], 100, true);
    add(r, a20(0xca), U256::from(5), 3, vec![], 50, true);
    add(r, a20(0xcc), U256::from(7), 3, vec![], 100, true);
    add(r, a20(0xcb), U256::from(0), 1, vec![], 50, true);
    let n = r.range(1, 60);
    let mut code = r.bytes(n);
    code[0] = 0x60;
    add(r, a20(0x11), U256::from(9), 1, code, 30, true);
    let b = U256::from(r.below(3));
    add(r, a20(0x22), b, 0, vec![], 30, true);
    if fork >= 12 || r.pct(30) {
        let mut d = vec![0xef, 0x01, 0x00];
        d.extend(a20(0x11));
        add(r, a20(0x44), U256::from(1), 1, d, 30, true);
        let mut d = vec![0xef, 0x01, 0x00];
        d.extend(a20(0x66));
        add(r, a20(0x55), U256::ZERO, 1, d, 30, true);
    }
    add(r, a20(0x66), U256::ZERO, 1, vec![0x5b, 0x00], 20, true);
    add(r, a20(0x77), U256::ZERO, 0, vec![], 20, true);
    add(r, Address::with_last_byte(1), U256::ZERO, 0, vec![], 90, false);
    v
}

fn script(r: &mut Rng) -> Vec<Outcome> {
    (0..24)
        .map(|_| {
            let n = *r.pick(&[0, 0, 1, 20, 31, 32, 33, 64, 100]);
            Outcome {
                r: r.pick(&["ok", "ok", "ok", "revert", "revert", "halt"]).to_string(),
                out: hex::encode(r.bytes(n)),
                frac: r.below(256) as u64,
                refund: if r.pct(20) { r.below(5000) as i64 - if r.pct(30) { 4800 } else { 0 } } else { 0 },
                addr: addr_w(Address::from_slice(&r.bytes(20))),
                rsv_used: r.below(2000) as u64,
                sstore: if r.pct(15) { vec![(w(U256::from(r.below(4))), w(U256::from(r.below(3))))] } else { vec![] },
            }
        })
        .collect()
}

pub fn config(r: &mut Rng, prop: &str) -> Config {
    let mut c = Config::default();
    c.garbage = r.next() as u8;
    if prop == "C09" {
        c.inspect = r.pct(50);
        c.dedup = r.pct(50);
        c.dse = r.pct(50);
        c.single_error = r.pct(50);
        c.debug_assert = r.pct(30);
        c.opt = r.below(4) as u8;
        c.budget = *r.pick(&[-1, -1, 0, 1, 3, 10, 50, 1000]);
    } else {
        // Settings a user may well have.
        c.inspect = r.pct(85);
        c.dedup = r.pct(90);
        c.dse = r.pct(90);
        c.single_error = r.pct(70);
        c.debug_assert = r.pct(5);
        c.budget = if r.pct(4) { r.below(20) as i64 } else { -1 };
    }
    c
}

/// Weights of program shapes per property: linear, cfg, subs, dups, deep, under, random, raw, corpus, stack, webs.
fn shapes(prop: &str) -> [usize; 11] {
    match prop {
        "C01" => [70, 12, 4, 3, 0, 0, 4, 0, 7, 10, 3],
        "C02" => [38, 26, 8, 4, 2, 3, 8, 2, 8, 4, 8],
        "C03" => [2, 45, 20, 10, 1, 2, 10, 4, 6, 2, 24],
        "C04" => [2, 14, 8, 2, 25, 35, 10, 4, 0, 12, 5],
        "C05" => [50, 36, 4, 0, 0, 1, 4, 0, 7, 0, 3],
        "C06" => [70, 15, 4, 2, 0, 1, 4, 0, 4, 0, 2],
        "C07" => [62, 18, 8, 3, 2, 1, 4, 0, 2, 6, 2],
        "C08" => [50, 15, 5, 3, 1, 4, 14, 4, 4, 4, 5],
        "C09" => [14, 30, 14, 14, 4, 6, 8, 3, 7, 22, 18],
        "C10" => [4, 14, 8, 6, 3, 4, 25, 25, 11, 6, 6],
        _ => [25, 25, 10, 8, 3, 5, 14, 4, 6, 8, 8],
    }
}

fn weights(prop: &str) -> Vec<(u8, usize)> {
    match prop {
        "C01" => vec![(b'a', 62), (b's', 18), (b'e', 8), (b'k', 4), (b'm', 4), (b'g', 2), (b'h', 2)],
        "C02" => vec![(b'a', 15), (b's', 8), (b'e', 4), (b'k', 8), (b'm', 22), (b'g', 14), (b'h', 18), (b'l', 5), (b'c', 6)],
        "C03" => vec![(b'a', 35), (b's', 35), (b'e', 8), (b'k', 2), (b'm', 8), (b'g', 6), (b'h', 4), (b'c', 2)],
        "C04" => vec![(b'a', 30), (b's', 50), (b'e', 8), (b'm', 6), (b'g', 4), (b'c', 2)],
        "C05" => vec![(b'a', 6), (b's', 8), (b'e', 6), (b'k', 8), (b'm', 50), (b'g', 8), (b'h', 6), (b'r', 4), (b'l', 2), (b'c', 4)],
        "C06" => vec![(b'a', 6), (b's', 8), (b'e', 2), (b'm', 6), (b'g', 3), (b'h', 58), (b'l', 13), (b'c', 4)],
        "C07" => vec![(b'a', 8), (b's', 8), (b'e', 3), (b'm', 16), (b'g', 7), (b'h', 10), (b'l', 2), (b'c', 36), (b'r', 12)],
        _ => vec![(b'a', 24), (b's', 16), (b'e', 10), (b'k', 4), (b'm', 14), (b'g', 6), (b'h', 14), (b'l', 4), (b'c', 8), (b'r', 3)],
    }
}

/// The base case with index `idx` of the stream for `prop`.
pub fn case(prop: &str, seed: u64, idx: u64) -> Case {
    let stream = prop.bytes().fold(0u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
    let mut rng = Rng::new(seed ^ stream.rotate_left(32), idx);
    let r = &mut rng;
    let fork = if prop == "C08" {
        r.below(15)
    } else if matches!(prop, "C09" | "C04" | "C03") && r.pct(20) {
        AMSTERDAM
    } else {
        *r.pick(&[11, 12, 12, 13, 13, 13, 14, 14, 10, 9, 7, 6, 5, 4, 3, 2, 0])
    };
    let sh = shapes(prop);
    let mut x = r.below(sh.iter().sum());
    let mut shape = 0;
    for (i, n) in sh.iter().enumerate() {
        if x < *n {
            shape = i;
            break;
        }
        x -= n;
    }
    let kind = ["linear", "cfg", "subs", "dups", "deep", "under", "random", "raw", "corpus", "stack", "webs"][shape];
    let fork = if kind == "stack" && prop != "C08" && r.pct(40) { AMSTERDAM } else { fork };
    let wts = weights(prop);
    let mut gas = 2_000_000u64;
    let (mut code, mut cd);
    {
        let mut g = G::new(r, fork, &wts);
        if matches!(kind, "cfg" | "subs" | "dups" | "webs") && g.r.pct(match prop { "C03" | "C04" | "C09" => 10, _ => 4 }) {
            g.tallp = 30;
        }
        match kind {
            "linear" => {
                let n = g.r.range(1, 24);
                g.linear(n);
                g.end();
            }
            "cfg" => {
                let nb = g.r.range(1, 8);
                let per = g.r.range(1, 5);
                if g.r.pct(35) {
                    g.dynp = *g.r.pick(&[15, 40, 70]);
                }
                if g.r.pct(if matches!(prop, "C05" | "C02") { 75 } else { 25 }) {
                    g.memp = *g.r.pick(&[30, 60, 90]);
                }
                if g.r.pct(30) {
                    g.fan(per);
                } else {
                    g.cfg(nb, per);
                }
                gas = 60_000;
            }
            "subs" => {
                g.subs();
                gas = 100_000;
            }
            "dups" => {
                g.dups();
                gas = 60_000;
            }
            "webs" => {
                if g.r.pct(if prop == "C09" { 40 } else { 20 }) {
                    g.twins();
                } else if g.r.pct(8) {
                    g.crowd();
                } else if g.r.pct(65) {
                    g.threads();
                } else {
                    g.webs();
                }
                gas = 60_000;
            }
            "deep" => {
                g.deep();
                gas = 200_000;
            }
            "under" => g.under(),
            "stack" => {
                // Values arranged, dropped and used in every way.
                g.konst = *g.r.pick(&[5, 30, 60]);
                g.weights = vec![(b's', 72), (b'a', 20), (b'm', 4), (b'g', 2), (b'c', 2)];
                let deep = g.fork >= AMSTERDAM && g.r.pct(40);
                for _ in 0..g.r.range(2, if deep { 30 } else { 9 }) {
                    let v = edge(g.r);
                    g.push_as(v);
                }
                for _ in 0..g.r.range(1, 3) {
                    let n = g.r.range(2, 14);
                    g.linear(n);
                    if g.r.pct(40) {
                        let l = g.a.label();
                        g.a.bind(l);
                    }
                }
                for _ in 0..g.r.below(4) {
                    if g.h == 0 {
                        break;
                    }
                    let o = U256::from(32 * g.r.below(8));
                    g.push(o);
                    g.a.op(0x52);
                    g.h -= 2;
                }
                g.end();
            }
            "random" => {
                let n = g.r.range(1, 60);
                g.random_ops(n);
                gas = 60_000;
            }
            "raw" => {
                let n = g.r.below(200);
                let v = g.r.bytes(n);
                g.a.b = v;
                gas = 60_000;
            }
            _ => {
                let c = corpus();
                if !c.is_empty() {
                    let (_, code, cds) = g.r.pick(c).clone();
                    g.a.b = code.clone();
                    if g.r.pct(70) && !cds.is_empty() {
                        g.cd = g.r.pick(&cds).clone();
                    } else if let Some(p) = (0..20).map(|_| g.r.below(code.len())).find(|p| code[*p] == 0x63 && p + 5 < code.len()) {
                        // A function selector found in the code, with random arguments.
                        g.cd = code[p + 1..p + 5].to_vec();
                        for _ in 0..g.r.below(5) {
                            let v = if g.r.pct(50) { g.value(A) } else { edge(g.r) };
                            g.cd.extend(v.to_be_bytes::<32>());
                        }
                    }
                }
                gas = 200_000;
            }
        }
        cd = std::mem::take(&mut g.cd);
        let a = std::mem::replace(&mut g.a, Asm::new());
        code = a.done(&mut cd);
    }
    // Mutations make shapes nobody thought of.
    if matches!(prop, "C03" | "C04" | "C09" | "C10" | "C08") && r.pct(15) && !code.is_empty() {
        for _ in 0..r.range(1, 3) {
            let p = r.below(code.len());
            match r.below(4) {
                0 => code[p] = r.next() as u8,
                1 => code.insert(p, r.pick(OPS).o),
                2 => {
                    code.remove(p);
                    if code.is_empty() {
                        break;
                    }
                }
                _ => code[p] = *r.pick(&[0x5b, 0x56, 0x57, 0x50, 0x80, 0x90, 0x60, 0x00, 0x5f]),
            }
        }
    }
    if code.len() > 24_000 {
        code.truncate(24_000);
    }
    let shared = r.pct(35);
    let spec = FORKS[fork];
    let mut gp = gp_of(spec);
    let mut custom = false;
    let p_custom = match prop {
        "C08" => 40,
        "C02" => 12,
        _ => 4,
    };
    if r.pct(p_custom) {
        custom = true;
        for _ in 0..r.range(1, 6) {
            let ids = gas_ids();
            let (n, _) = r.pick(&ids);
            let v = match *n {
                "mem_quad" => r.range(1, 2000) as u64,
                "call_red" => r.range(2, 100) as u64,
                "stipend" => r.below(4000) as u64,
                _ => {
                    if r.pct(30) {
                        r.below(20) as u64
                    } else {
                        r.below(5000) as u64
                    }
                }
            };
            gp.insert(n.to_string(), v);
        }
        if matches!(prop, "C08" | "C02") && r.pct(6) {
            // Prices beyond 32 bits, with gas to match; memory is dear so that little of it can be had.
            for _ in 0..r.range(1, 3) {
                let ids = gas_ids();
                let (n, _) = if r.pct(30) { ids.iter().find(|x| x.0 == "exp_byte").unwrap() } else { r.pick(&ids) };
                if !matches!(*n, "mem_quad" | "call_red" | "stipend") {
                    let v = *r.pick(&[1u64 << 27, 1 << 31, 1 << 32, 1 << 33, 1 << 40]) + r.below(1000) as u64;
                    gp.insert(n.to_string(), v);
                }
            }
            let m = (1u64 << 32) + r.below(1000) as u64;
            gp.insert("mem_lin".into(), m);
            gas = 1 << 50;
        }
    }
    let eip8037 = fork == AMSTERDAM && r.pct(50);
    let st = if matches!(prop, "C06" | "C07") { 20 } else { 8 };
    let mut storage = vec![];
    for k in 0..4 {
        if r.pct(70) {
            let o = U256::from(r.below(3));
            let c = if r.pct(60) { o } else { U256::from(r.below(3)) };
            storage.push(Slot { k: w(U256::from(k)), orig: w(o), cur: w(c), warm: r.pct(40) });
        }
    }
    Case {
        id: idx * 100,
        prof: prop.into(),
        kind: kind.into(),
        fork,
        code: hex::encode(&code),
        input: hex::encode(&cd),
        shared,
        parent: if shared || r.pct(30) { 32 * r.below(12) } else { 0 },
        gas,
        rsv: if eip8037 && r.pct(70) { r.below(200_000) as u64 } else { 0 },
        eip8037,
        is_static: r.pct(st) && fork >= BYZANTIUM,
        dead: r.pct(12),
        this: addr_w(this()),
        caller: addr_w(a20(0xca)),
        value: w(if r.pct(50) { U256::ZERO } else { edge(r) }),
        env: env(r),
        accts: accts(r, fork),
        storage,
        tstorage: if fork >= CANCUN && r.pct(50) { vec![(w(U256::from(1)), w(U256::from(r.below(9))))] } else { vec![] },
        gp,
        custom_gp: custom,
        script: script(r),
        cfg: config(r, prop),
    }
}

/// Variations of a base case that reuse its compiled code: other gas limits, inputs and modes.
pub fn variants(c: &Case, used: Option<u64>, trace: &[(u32, u64)], r: &mut Rng) -> Vec<Case> {
    let mut v = vec![];
    let mut id = c.id;
    let mut add = |mut x: Case| {
        id += 1;
        x.id = id;
        v.push(x);
    };
    let top = used.unwrap_or(c.gas).min(c.gas);
    if let Some(u) = used {
        let mut x = c.clone();
        x.gas = u;
        add(x);
        if u > 0 {
            let mut x = c.clone();
            x.gas = u - 1;
            add(x);
        }
    }
    // Gas that runs out in, or falls to some threshold at, a chosen instruction.
    let code = hex::decode(&c.code).unwrap();
    let at = |i: usize| code.get(trace[i].0 as usize).copied().unwrap_or(0);
    let mut spots: Vec<usize> = vec![];
    let host: Vec<usize> = (0..trace.len().min(2000)).filter(|i| matches!(at(*i), 0x0a | 0x20 | 0x31 | 0x37..=0x40 | 0x47 | 0x51..=0x55 | 0x5a | 0x5c..=0x5e | 0xa0..=0xa4 | 0xf0..=0xff)).collect();
    for _ in 0..2 {
        if !host.is_empty() && r.pct(75) {
            spots.push(*r.pick(&host));
        } else if !trace.is_empty() {
            spots.push(r.below(trace.len().min(2000)));
        }
    }
    for i in spots {
        let before = c.gas.saturating_sub(trace[i].1);
        let next = trace.get(i + 1).map(|x| c.gas.saturating_sub(x.1)).filter(|x| *x >= before);
        let k = match r.below(8) {
            0 | 1 if at(i) == 0x55 => 2300 + r.below(3) as u64,
            0 | 1 => *r.pick(&[0u64, 1, 3, 100, 700, 2100, 2300, 2600, 9000, 25000, 32000]) + r.below(2) as u64,
            2..=5 if next.is_some() => {
                let d = next.unwrap() - before;
                d.saturating_sub(r.below(2) as u64)
            }
            6 => c.gp.values().copied().filter(|v| *v < 100_000).nth(r.below(c.gp.len().max(1))).unwrap_or(0) + r.below(2) as u64,
            _ => r.below(5000) as u64,
        };
        let mut x = c.clone();
        x.gas = before.saturating_add(k).min(c.gas.max(10_000_000));
        add(x);
    }
    if r.pct(50) {
        let mut x = c.clone();
        x.gas = r.below(top as usize + 2) as u64;
        add(x);
    }
    // Other calldata.
    let n = c.input.len() / 64;
    if n > 0 {
        for _ in 0..2 {
            let mut x = c.clone();
            let mut b = hex::decode(&c.input).unwrap();
            let at = r.below(n) * 32;
            let at = (b.len() % 32 + at).min(b.len() - 32);
            let mut word = b[at..at + 32].to_vec();
            let k = r.below(n) * 32 + b.len() % 32;
            if r.pct(35) && k + 32 <= b.len() {
                word = b[k..k + 32].to_vec();
            } else if r.pct(50) {
                word = edge(r).to_be_bytes::<32>().to_vec();
            } else {
                word[31] ^= 1;
            }
            b[at..at + 32].copy_from_slice(&word);
            if r.pct(10) {
                b.truncate(at + r.below(32));
            }
            x.input = hex::encode(b);
            add(x);
        }
    }
    if r.pct(15) && c.fork >= BYZANTIUM {
        let mut x = c.clone();
        x.is_static = !x.is_static;
        add(x);
    }
    v
}
