//! Accounts, code and transactions, all from a seed.
use crate::rng::Rng;
use revm_bytecode::opcode as op;
use revm_primitives::{Address, B256, U256, hardfork::SpecId};

#[derive(Clone, Debug)]
pub struct Acct {
    pub addr: Address,
    pub code: Vec<u8>,
    /// Delegates to this address (EIP-7702).
    pub delegate: Option<Address>,
    pub balance: U256,
    pub nonce: u64,
    pub storage: Vec<(U256, U256)>,
}

#[derive(Clone, Debug)]
pub struct Tx {
    pub system: bool,
    pub to: Option<Address>,
    pub value: U256,
    pub data: Vec<u8>,
    pub gas: u64,
    pub access: Vec<(Address, Vec<B256>)>,
    pub auths: Vec<(Address, Address, u64)>,
    pub fail: Option<(Address, Option<U256>)>,
    /// The protocol version from here on.
    pub fork: Option<SpecId>,
    /// Accounts whose code becomes available compiled before this transaction.
    pub compile: Vec<usize>,
    /// Which of the equivalent entry points is used.
    pub entry: u8,
    /// Whether an inspector is used.
    pub inspect: bool,
    pub bad_nonce: bool,
    /// Compiled code is dropped first; the executor is given its backend anew.
    pub clear: bool,
    pub refresh: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// The runtime's executor; lookups compile first.
    Blocking,
    /// The runtime's executor; some code has been compiled.
    Ready,
    /// The runtime's executor; lookups trigger compilations in the background.
    Hot,
    /// The executor with a map of functions.
    Map,
    /// The executor with a map and a function consulted for the rest.
    Miss,
    /// The alloy bindings.
    Alloy,
}

#[derive(Clone, Debug)]
pub struct World {
    pub mode: Mode,
    pub fork: SpecId,
    pub accts: Vec<Acct>,
    pub txs: Vec<Tx>,
    pub coinbase: Address,
    pub basefee: u64,
    /// The inspector replaces some outcomes.
    pub meddle: bool,
    /// The function consulted for the rest answers only from the n-th question per code on.
    pub after: usize,
    /// Compiler settings, as bits.
    pub settings: u8,
    /// Prices other than the network's.
    pub prices: bool,
}

pub const SENDER: Address = Address::repeat_byte(0xEE);

fn addr(n: usize) -> Address {
    let mut b = [0x11u8; 20];
    b[18] = (n >> 8) as u8;
    b[19] = n as u8;
    Address::new(b)
}

struct Asm<'a> {
    out: Vec<u8>,
    r: &'a mut Rng,
    fork: SpecId,
    n: usize,
    depth: usize,
}

fn push_bytes(out: &mut Vec<u8>, b: &[u8]) {
    let b: &[u8] = if b.is_empty() { &[0] } else { b };
    out.push(op::PUSH1 + b.len() as u8 - 1);
    out.extend_from_slice(b);
}

impl Asm<'_> {
    fn o(&mut self, x: u8) -> &mut Self {
        self.out.push(x);
        self
    }
    fn p(&mut self, x: usize) -> &mut Self {
        if x == 0 && self.fork >= SpecId::SHANGHAI && self.r.pct(50) {
            return self.o(op::PUSH0);
        }
        let b = x.to_be_bytes();
        let s = b.iter().position(|b| *b != 0).unwrap_or(7);
        push_bytes(&mut self.out, &b[s..]);
        self
    }
    fn p20(&mut self, a: Address) -> &mut Self {
        push_bytes(&mut self.out, a.as_slice());
        self
    }
    /// Another value on the stack.
    fn value(&mut self) {
        let n = self.r.below(15);
        match n {
            0 => self.o(op::CALLER),
            1 => self.o(op::ADDRESS),
            2 => self.o(op::CALLVALUE),
            3 => self.o(op::ORIGIN),
            4 => {
                let k = self.r.below(4);
                self.p(k).o(op::SLOAD)
            }
            5 => self.p(0).o(op::MLOAD),
            6 => {
                let k = self.r.below(40);
                self.p(k).o(op::CALLDATALOAD)
            }
            7 => self.o(op::CALLDATASIZE),
            8 => {
                self.target();
                self.o(op::BALANCE)
            }
            9 => {
                self.target();
                self.o(op::EXTCODESIZE)
            }
            10 if self.fork >= SpecId::BYZANTIUM => self.o(op::RETURNDATASIZE),
            11 if self.fork >= SpecId::ISTANBUL => self.o(op::SELFBALANCE),
            12 if self.fork >= SpecId::CANCUN => {
                let k = self.r.below(4);
                self.p(k).o(op::TLOAD)
            }
            13 if self.fork >= SpecId::PETERSBURG => {
                self.target();
                self.o(op::EXTCODEHASH)
            }
            14 => self.o(op::MSIZE),
            _ => {
                let k = self.r.below(300);
                self.p(k)
            }
        };
    }
    /// An address on the stack.
    fn target(&mut self) {
        let k = self.r.below(20);
        match k {
            0 => self.o(op::ADDRESS),
            1 => self.o(op::CALLER),
            2 => {
                let p = self.r.range(1, 5);
                self.p(p)
            }
            3 => self.p20(Address::repeat_byte(0x77)),
            4 => self.p20(SENDER),
            // The last thing created.
            5 => self.p(32).o(op::MLOAD),
            _ => {
                let k = self.r.below(self.n);
                self.p20(addr(k))
            }
        };
    }
    fn store(&mut self) {
        self.value();
        if self.r.pct(30) {
            self.p(0).o(op::MUL);
        }
        let k = self.r.below(4);
        self.p(k);
        let t = self.fork >= SpecId::CANCUN && self.r.pct(25);
        self.o(if t { op::TSTORE } else { op::SSTORE });
    }
    fn call(&mut self) {
        // Values that must survive the call.
        let live = self.r.below(4);
        for _ in 0..live {
            self.value();
        }
        let mut kinds = vec![op::CALL, op::CALL, op::CALL, op::CALLCODE];
        if self.fork >= SpecId::HOMESTEAD {
            kinds.extend([op::DELEGATECALL, op::DELEGATECALL]);
        }
        if self.fork >= SpecId::BYZANTIUM {
            kinds.extend([op::STATICCALL, op::STATICCALL]);
        }
        let kind = *self.r.pick(&kinds);
        for _ in 0..2 {
            // Length, then offset.
            let l = *self.r.pick(&[0usize, 32, 32, 64, 5]);
            let o = *self.r.pick(&[0usize, 0, 32, 64, 100]);
            self.p(l).p(o);
        }
        if kind == op::CALL || kind == op::CALLCODE {
            let v = *self.r.pick(&[0usize, 0, 0, 1, 1000, 1 << 60]);
            self.p(v);
        }
        self.target();
        match self.r.below(6) {
            0 => {
                let g = self.r.below(3000);
                self.p(g);
            }
            1 => {
                self.p(50_000);
            }
            2 => {
                self.p(2).o(op::GAS).o(op::DIV);
            }
            _ => {
                if self.fork >= SpecId::TANGERINE {
                    self.o(op::GAS);
                } else {
                    self.p(20_000);
                }
            }
        }
        self.o(kind);
        for _ in 0..live {
            let x = *self.r.pick(&[op::ADD, op::XOR, op::MUL, op::SUB]);
            self.o(x);
        }
        let keep = self.r.below(4);
        match keep {
            0 => {
                self.o(op::POP);
            }
            1 => {
                let k = self.r.below(4);
                self.p(k).o(op::SSTORE);
            }
            _ => {
                self.p(0).o(op::MSTORE);
            }
        }
        if self.fork >= SpecId::BYZANTIUM && self.r.pct(40) {
            self.o(op::RETURNDATASIZE).p(0).p(64).o(op::RETURNDATACOPY);
        }
    }
    fn create(&mut self) {
        // Initcode placed in memory from this code's tail is patched in later; here it is written out.
        let mut init = vec![];
        {
            let mut sub = Asm { out: vec![], r: self.r, fork: self.fork, n: self.n, depth: self.depth + 1 };
            sub.body(2);
            match sub.r.below(6) {
                0 => {
                    let x = if sub.fork >= SpecId::BYZANTIUM { op::REVERT } else { op::INVALID };
                    sub.p(0).p(0).o(x);
                }
                1 => {
                    sub.o(op::STOP);
                }
                2 => {
                    sub.target();
                    sub.o(op::SELFDESTRUCT);
                }
                _ => {
                    // Returns a small program.
                    let prog = match sub.r.below(4) {
                        0 => vec![op::CALLER, op::PUSH1, 0, op::SSTORE, op::STOP],
                        1 => vec![op::PUSH1, 7, op::PUSH1, 0, op::MSTORE, op::PUSH1, 32, op::PUSH1, 0, op::RETURN],
                        2 => vec![op::ADDRESS, op::SELFDESTRUCT],
                        _ => vec![op::PUSH1, 3, op::PUSH1, 1, op::SSTORE, op::PUSH1, 0, op::PUSH1, 0, op::LOG0, op::STOP],
                    };
                    let l = prog.len();
                    push_bytes(&mut sub.out, &prog);
                    sub.p(0).o(op::MSTORE);
                    sub.p(l).p(32 - l).o(op::RETURN);
                }
            }
            init.append(&mut sub.out);
        }
        // In 32-byte pieces at 256.
        for (i, c) in init.chunks(32).enumerate() {
            let mut w = c.to_vec();
            w.resize(32, 0);
            push_bytes(&mut self.out, &w);
            self.p(256 + 32 * i).o(op::MSTORE);
        }
        let live = self.r.below(3);
        for _ in 0..live {
            self.value();
        }
        let two = self.fork >= SpecId::PETERSBURG && self.r.pct(50);
        if two {
            let s = self.r.below(3);
            self.p(s);
        }
        self.p(init.len()).p(256);
        let v = *self.r.pick(&[0usize, 0, 1, 1 << 60]);
        self.p(v);
        self.o(if two { op::CREATE2 } else { op::CREATE });
        self.o(op::DUP1).p(32).o(op::MSTORE);
        for _ in 0..live {
            self.o(op::XOR);
        }
        self.p(0).o(op::MSTORE);
    }
    fn piece(&mut self) {
        match self.r.below(20) {
            0..=4 => self.store(),
            5..=10 => self.call(),
            11 | 12 => {
                let t = self.r.below(5);
                for _ in 0..t {
                    self.value();
                }
                let l = self.r.below(70);
                self.p(l).p(0).o(op::LOG0 + t as u8);
            }
            13 => {
                self.value();
                self.value();
                let x = *self.r.pick(&[op::ADD, op::MUL, op::EXP, op::LT, op::AND, op::SDIV]);
                self.o(x).p(0).o(op::MSTORE);
            }
            14 if self.depth < 2 => self.create(),
            15 if self.depth < 2 => {
                // If something, do a piece.
                self.value();
                if self.r.pct(50) {
                    self.p(1).o(op::AND);
                }
                let at = self.out.len();
                self.out.extend([op::PUSH2, 0, 0, op::JUMPI]);
                self.piece();
                let to = self.out.len();
                self.out[at + 1] = (to >> 8) as u8;
                self.out[at + 2] = to as u8;
                self.o(op::JUMPDEST);
            }
            16 if self.depth == 0 => {
                // A few times.
                let k = self.r.range(1, 3);
                self.p(k);
                let top = self.out.len();
                self.o(op::JUMPDEST);
                self.piece();
                self.p(1).o(op::SWAP1).o(op::SUB).o(op::DUP1);
                self.out.extend([op::PUSH2, (top >> 8) as u8, top as u8, op::JUMPI]);
                self.o(op::POP);
            }
            17 => {
                self.p(40).p(0).p(64).o(op::CALLDATACOPY);
            }
            18 => {
                self.p(32).p(0).p(0);
                self.target();
                self.o(op::EXTCODECOPY);
            }
            _ => {
                self.p(32).p(0).o(op::KECCAK256).p(0).o(op::MSTORE);
            }
        }
    }
    fn body(&mut self, n: usize) {
        let k = self.r.below(n + 1);
        for _ in 0..k {
            self.piece();
        }
    }
    fn end(&mut self) {
        match self.r.below(16) {
            0..=4 => {
                self.p(64).p(0).o(op::RETURN);
            }
            5..=7 => {
                self.p(40).p(0);
                self.o(if self.fork >= SpecId::BYZANTIUM { op::REVERT } else { op::RETURN });
            }
            8 | 9 => {
                self.target();
                self.o(op::SELFDESTRUCT);
            }
            10 => {
                self.o(op::INVALID);
            }
            11 => {
                self.o(op::ADD);
            }
            12 => {
                self.p(1).o(op::JUMP);
            }
            13 => {}
            _ => {
                self.o(op::STOP);
            }
        }
    }
}

const FORKS: [SpecId; 15] = [
    SpecId::FRONTIER,
    SpecId::HOMESTEAD,
    SpecId::TANGERINE,
    SpecId::SPURIOUS_DRAGON,
    SpecId::BYZANTIUM,
    SpecId::PETERSBURG,
    SpecId::ISTANBUL,
    SpecId::BERLIN,
    SpecId::LONDON,
    SpecId::MERGE,
    SpecId::SHANGHAI,
    SpecId::CANCUN,
    SpecId::PRAGUE,
    SpecId::OSAKA,
    SpecId::AMSTERDAM,
];

pub fn world(seed: u64, index: u64) -> World {
    let mut r = Rng::new(seed, index);
    let r = &mut r;
    let fork = if r.pct(60) { *r.pick(&FORKS[10..]) } else { *r.pick(&FORKS) };
    let mode = *r.pick(&[Mode::Blocking, Mode::Blocking, Mode::Ready, Mode::Ready, Mode::Hot, Mode::Map, Mode::Miss, Mode::Alloy]);
    let n = r.range(2, 7);
    let mut accts = vec![];
    for i in 0..n {
        let shape = r.below(12);
        let mut code = vec![];
        let mut delegate = None;
        if shape == 0 && fork >= SpecId::PRAGUE {
            delegate = Some(addr(r.below(n)));
        } else if shape == 1 && i > 0 {
            code = accts.iter().map(|a: &Acct| a.code.clone()).next().unwrap();
        } else if shape == 2 {
            // Calls itself until it cannot.
            let mut a = Asm { out: vec![], r, fork, n, depth: 0 };
            a.value();
            a.p(32).p(0).p(32).p(0).p(0).o(op::ADDRESS);
            if fork >= SpecId::TANGERINE {
                a.o(op::GAS);
            } else {
                a.p(3_000).o(op::GAS).o(op::SUB);
            }
            a.o(op::CALL).o(op::ADD).p(0).o(op::MLOAD).o(op::ADD).p(0).o(op::MSTORE).p(32).p(0).o(op::RETURN);
            code = a.out;
        } else {
            let mut a = Asm { out: vec![], r, fork, n, depth: 0 };
            let k = a.r.range(1, 6);
            for _ in 0..k {
                a.piece();
            }
            a.end();
            code = a.out;
        }
        let storage = (0..r.below(4)).map(|k| (U256::from(k), U256::from(r.below(3)))).collect();
        accts.push(Acct { addr: addr(i), code, delegate, balance: U256::from([0u64, 5, 100_000][r.below(3)]), nonce: 1, storage });
    }
    let prices = r.pct(10);
    let k = r.range(2, 6);
    let mut txs = vec![];
    let mut now = fork;
    for t in 0..k {
        let switch = t > 0 && !prices && mode != Mode::Alloy && r.pct(20);
        let f = if switch {
            now = *r.pick(&FORKS);
            Some(now)
        } else {
            None
        };
        let to = if r.pct(10) { None } else { Some(addr(r.below(n))) };
        let len = r.below(80);
        let mut data = r.bytes(len);
        if to.is_none() {
            let mut a = Asm { out: vec![], r, fork: now, n, depth: 1 };
            a.body(4);
            a.end();
            data = a.out;
        }
        let big = now >= SpecId::TANGERINE;
        let gas = match r.below(5) {
            0 => 30_000 + r.below(60_000) as u64,
            1 if big => 3_000_000,
            _ => 400_000,
        };
        let access = if now >= SpecId::BERLIN && r.pct(25) {
            (0..r.range(1, 3)).map(|_| (addr(r.below(n)), (0..r.below(3)).map(|k| B256::with_last_byte(k as u8)).collect())).collect()
        } else {
            vec![]
        };
        let auths = if now >= SpecId::PRAGUE && to.is_some() && r.pct(25) {
            (0..r.range(1, 2)).map(|_| (Address::repeat_byte(0x70 + r.below(2) as u8), addr(r.below(n)), r.below(2) as u64)).collect()
        } else {
            vec![]
        };
        let fail = r.pct(6).then(|| (addr(r.below(n)), r.pct(50).then(|| U256::from(r.below(4)))));
        txs.push(Tx {
            system: to.is_some() && r.pct(10),
            to,
            value: U256::from([0u64, 0, 1, 7777][r.below(4)]),
            data,
            gas,
            access,
            auths,
            fail,
            fork: f,
            compile: (0..n).filter(|_| r.pct(if mode == Mode::Map { 60 } else { 35 })).collect(),
            entry: r.below(4) as u8,
            inspect: r.pct(35),
            bad_nonce: r.pct(3),
            clear: r.pct(10),
            refresh: r.pct(20),
        });
    }
    World {
        mode,
        fork,
        accts,
        txs,
        coinbase: if r.pct(20) { addr(0) } else { Address::repeat_byte(0xC0) },
        basefee: if fork >= SpecId::LONDON { 7 } else { 0 },
        meddle: r.pct(25),
        after: r.range(1, 3),
        settings: if r.pct(50) { 0 } else { r.below(16) as u8 },
        prices,
    }
}
