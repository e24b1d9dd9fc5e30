//! Executes the IR. Every undefined behaviour the real backend could exploit is a trap here.
use crate::ir::*;
use ruint::aliases::U256;
use std::{
    cell::UnsafeCell,
    collections::{HashMap, VecDeque},
    ffi::CString,
    sync::{
        Arc, Mutex, OnceLock,
        atomic::{AtomicBool, AtomicPtr, AtomicUsize, Ordering},
    },
};

const CONST: u32 = 0x8000_0000;
const NONE: u32 = u32::MAX;

/// Bytes on either side of the EVM stack that compiled code may not touch (0: not checked).
pub static STACK_REDZONE: AtomicUsize = AtomicUsize::new(0);

/// Branches one activation may take before it counts as diverging; 0 for no limit.
pub static FUEL: AtomicUsize = AtomicUsize::new(0);

#[cold]
#[inline(never)]
pub fn trap(func: &str, msg: &str) -> ! {
    use std::io::Write;
    let _ = writeln!(std::io::stderr(), "FAKE-LLVM-TRAP: in {func}: {msg}");
    let _ = std::io::stderr().flush();
    std::process::abort()
}

#[derive(Clone, Copy)]
struct Reg {
    w: [u64; 4],
}

// Register states.
const UNDEF: u8 = 0;
const OK: u8 = 1;
const POISON: u8 = 2;

#[derive(Debug)]
enum Target {
    Native(usize),
    Internal(u32),
    Nop,
}

#[derive(Debug)]
struct DCall {
    target: Target,
    args: Box<[u32]>,
    attrs: Box<[ParamAttrs]>,
    name: Box<str>,
    no_return: bool,
}

#[derive(Debug)]
enum D {
    Alloca { dst: u32, off: u32 },
    Load { dst: u32, ptr: u32, bytes: u16, bits: u16, align: u16 },
    Store { ptr: u32, val: u32, bytes: u16, align: u16 },
    Assume(u32),
    ICmp(Cc, u32, u32, u32, u16),
    Bin(BinOp, u32, u32, u32, u16),
    Un(UnOp, u32, u32, u16, u16),
    Select(u32, u32, u32, u32),
    Gep { dst: u32, ptr: u32, idx: Box<[(u32, u16, u64)]> },
    Call { dst: u32, c: Box<DCall> },
    MemCpy(u32, u32, u32),
    Br(u32),
    BrIf(u32, u32, u32),
    Switch { v: u32, default: u32, map: Box<HashMap<u64, u32>> },
    Ret(u32),
    Unreachable,
}

#[derive(Debug)]
struct DBlock {
    phis: Box<[(u32, Box<[(u32, u32)]>)]>,
    start: u32,
}

#[derive(Debug)]
struct DFunc {
    name: String,
    nparams: u32,
    nregs: u32,
    slot_bytes: u32,
    blocks: Vec<DBlock>,
    code: Vec<D>,
    pattrs: Vec<ParamAttrs>,
}

#[derive(Debug)]
pub struct ExecModule {
    funcs: Vec<Option<DFunc>>,
    consts: Vec<[u64; 4]>,
    _strs: Vec<CString>,
    pub code_bytes: usize,
    pub data_bytes: usize,
}

impl ExecModule {
    /// Prepares a module for execution, resolving declarations with `resolve`.
    pub fn load(m: &Module, resolve: &dyn Fn(&str) -> Option<usize>) -> Result<Self, String> {
        let strs: Vec<CString> = m.strs.iter().map(|s| CString::new(s.as_str()).unwrap()).collect();
        let nconst = m.consts.len() as u32;
        let mut consts = m.consts.clone();
        consts.extend(strs.iter().map(|s| [s.as_ptr() as u64, 0, 0, 0]));
        let mut funcs = Vec::new();
        for f in &m.funcs {
            if f.is_decl() || f.deleted {
                funcs.push(None);
                continue;
            }
            let np = f.params.len() as u32;
            let o = |v: Val| match v.k {
                VK::Const(i) => i | CONST,
                VK::Str(i) => (nconst + i) | CONST,
                VK::Param(i) => i,
                VK::Inst(i) => np + i,
            };
            let mut d = DFunc {
                name: f.name.clone(),
                nparams: np,
                nregs: np + f.insts.len() as u32,
                slot_bytes: 0,
                blocks: vec![],
                code: vec![],
                pattrs: f.pattrs.clone(),
            };
            for b in &f.blocks {
                let start = d.code.len() as u32;
                let mut phis = vec![];
                for &i in &b.insts {
                    let inst = &f.insts[i as usize];
                    let dst = np + i;
                    let bits = |t: Ty| t.bits() as u16;
                    let di = match &inst.op {
                        Op::Phi(inc) => {
                            phis.push((
                                dst,
                                inc.iter()
                                    .map(|(v, b)| (b.idx, o(*v)))
                                    .collect::<Vec<_>>()
                                    .into_boxed_slice(),
                            ));
                            continue;
                        }
                        Op::Alloca { ty } => {
                            let off = d.slot_bytes.next_multiple_of(16);
                            d.slot_bytes = off + ty.alloc_bytes() as u32;
                            D::Alloca { dst, off }
                        }
                        Op::Load { ptr, align } => {
                            let ty = inst.ty.unwrap();
                            D::Load {
                                dst,
                                ptr: o(*ptr),
                                bytes: ty.store_bytes() as u16,
                                bits: bits(ty),
                                align: *align as u16,
                            }
                        }
                        Op::Store { ptr, val, align } => D::Store {
                            ptr: o(*ptr),
                            val: o(*val),
                            bytes: val.ty.store_bytes() as u16,
                            align: *align as u16,
                        },
                        Op::Assume(v) => D::Assume(o(*v)),
                        Op::ICmp(cc, a, b) => D::ICmp(*cc, dst, o(*a), o(*b), bits(a.ty)),
                        Op::Bin(op, a, b) => D::Bin(*op, dst, o(*a), o(*b), bits(a.ty)),
                        Op::Un(op, a) => D::Un(*op, dst, o(*a), bits(a.ty), bits(inst.ty.unwrap())),
                        Op::Select(c, a, b) => D::Select(dst, o(*c), o(*a), o(*b)),
                        Op::Gep { elem, ptr, idx } => {
                            let mut v = vec![];
                            for (n, ix) in idx.iter().enumerate() {
                                let scale = if n == 0 {
                                    elem.alloc_bytes() as u64
                                } else {
                                    match elem {
                                        Ty::Array { elem, .. } => *elem as u64,
                                        _ => return Err("gep into non-aggregate".into()),
                                    }
                                };
                                v.push((o(*ix), bits(ix.ty), scale));
                            }
                            D::Gep { dst, ptr: o(*ptr), idx: v.into() }
                        }
                        Op::Call { f: g, args } => {
                            let gf = &m.funcs[g.0 as usize];
                            let target = if gf.name == "printf" {
                                Target::Nop
                            } else if gf.is_decl() {
                                Target::Native(resolve(&gf.name).ok_or_else(|| {
                                    format!("Symbols not found: [ {} ]", gf.name)
                                })?)
                            } else {
                                Target::Internal(g.0)
                            };
                            if matches!(target, Target::Native(_)) && args.len() > 6 {
                                return Err("too many native arguments".into());
                            }
                            D::Call {
                                dst: if inst.ty.is_some() { dst } else { NONE },
                                c: Box::new(DCall {
                                    target,
                                    args: args.iter().map(|a| o(*a)).collect(),
                                    attrs: gf.pattrs.clone().into(),
                                    name: gf.name.as_str().into(),
                                    no_return: gf.no_return,
                                }),
                            }
                        }
                        Op::MemCpy { dst, src, len } => D::MemCpy(o(*dst), o(*src), o(*len)),
                        Op::Br(b) => D::Br(b.idx),
                        Op::BrIf(c, a, b) => D::BrIf(o(*c), a.idx, b.idx),
                        Op::Switch { v, default, targets } => D::Switch {
                            v: o(*v),
                            default: default.idx,
                            map: Box::new(targets.iter().map(|(k, b)| (*k, b.idx)).collect()),
                        },
                        Op::Ret(v) => D::Ret(v.map(o).unwrap_or(NONE)),
                        Op::Unreachable => D::Unreachable,
                    };
                    d.code.push(di);
                }
                d.blocks.push(DBlock { phis: phis.into(), start });
            }
            funcs.push(Some(d));
        }
        let (code_bytes, data_bytes) = m.size_estimate();
        Ok(Self { funcs, consts, _strs: strs, code_bytes, data_bytes })
    }
}

// ---- Frames -------------------------------------------------------------------------------
//
// A builtin can leave compiled code without returning (it resets the stack pointer), so frames are
// not owned by Rust values on the native stack: they live in a thread-local list keyed by the native
// stack position, and whatever lies below the current position is stale and reused.

struct FrameMem {
    sp: usize,
    ptr: *mut u8,
    cap: usize,
}

thread_local! {
    static FRAMES: UnsafeCell<(Vec<FrameMem>, Vec<FrameMem>)> =
        const { UnsafeCell::new((Vec::new(), Vec::new())) };
}

fn frame_alloc(sp: usize, size: usize) -> *mut u8 {
    FRAMES.with(|f| {
        let (live, free) = unsafe { &mut *f.get() };
        while let Some(top) = live.last()
            && top.sp <= sp
        {
            let top = live.pop().unwrap();
            free.push(top);
        }
        let mut fm = match free.iter().position(|m| m.cap >= size) {
            Some(i) => free.swap_remove(i),
            None => {
                let cap = size.next_power_of_two().max(1 << 14);
                let ptr = unsafe {
                    std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(cap, 64))
                };
                FrameMem { sp, ptr, cap }
            }
        };
        fm.sp = sp;
        let p = fm.ptr;
        live.push(fm);
        p
    })
}

fn frame_release(ptr: *mut u8) {
    FRAMES.with(|f| {
        let (live, free) = unsafe { &mut *f.get() };
        while let Some(top) = live.pop() {
            let hit = top.ptr == ptr;
            free.push(top);
            if hit {
                break;
            }
        }
    })
}

struct Env<'a> {
    m: &'a ExecModule,
    freed: Option<&'a AtomicBool>,
    lo: usize,
    hi: usize,
    zone: usize,
}

impl Env<'_> {
    #[inline]
    fn check_addr(&self, f: &DFunc, addr: usize, len: usize, align: usize) {
        if addr < 4096 {
            trap(&f.name, "null pointer access");
        }
        if align > 1 && addr % align != 0 {
            trap(&f.name, "misaligned access");
        }
        if self.zone != 0 {
            let end = addr + len;
            if (addr < self.lo && end > self.lo - self.zone)
                || (end > self.hi && addr < self.hi + self.zone)
            {
                trap(&f.name, "access outside of the EVM stack");
            }
        }
    }
}

#[inline]
fn mask(mut w: [u64; 4], bits: u16) -> [u64; 4] {
    let b = bits as usize;
    if b >= 256 {
        return w;
    }
    let i = b / 64;
    let r = b % 64;
    if r == 0 {
        for x in &mut w[i..] {
            *x = 0;
        }
    } else {
        w[i] &= (1u64 << r) - 1;
        for x in &mut w[i + 1..] {
            *x = 0;
        }
    }
    w
}

#[inline]
fn sign(w: &[u64; 4], bits: u16) -> bool {
    let b = bits as usize - 1;
    (w[b / 64] >> (b % 64)) & 1 == 1
}

#[inline]
fn u(w: [u64; 4]) -> U256 {
    U256::from_limbs(w)
}

fn sext_to_256(w: [u64; 4], bits: u16) -> [u64; 4] {
    if bits >= 256 || !sign(&w, bits) {
        return w;
    }
    *(u(w) | (U256::MAX << bits as usize)).as_limbs()
}

fn cmp_u(a: &[u64; 4], b: &[u64; 4]) -> std::cmp::Ordering {
    for i in (0..4).rev() {
        match a[i].cmp(&b[i]) {
            std::cmp::Ordering::Equal => {}
            o => return o,
        }
    }
    std::cmp::Ordering::Equal
}

fn icmp(cc: Cc, a: &[u64; 4], b: &[u64; 4], bits: u16) -> bool {
    use std::cmp::Ordering::*;
    let un = cmp_u(a, b);
    let sg = || match (sign(a, bits), sign(b, bits)) {
        (true, false) => Less,
        (false, true) => Greater,
        _ => un,
    };
    match cc {
        Cc::Eq => un == Equal,
        Cc::Ne => un != Equal,
        Cc::Ult => un == Less,
        Cc::Uge => un != Less,
        Cc::Ugt => un == Greater,
        Cc::Ule => un != Greater,
        Cc::Slt => sg() == Less,
        Cc::Sge => sg() != Less,
        Cc::Sgt => sg() == Greater,
        Cc::Sle => sg() != Greater,
    }
}

fn neg(a: U256) -> U256 {
    U256::ZERO.wrapping_sub(a)
}

/// Returns `None` for poison.
fn bin(f: &DFunc, op: BinOp, a: &[u64; 4], b: &[u64; 4], bits: u16) -> Option<[u64; 4]> {
    let w = bits as u64;
    let (x, y) = (u(*a), u(*b));
    let r = match op {
        BinOp::Add => x.wrapping_add(y),
        BinOp::Sub => x.wrapping_sub(y),
        BinOp::Mul => x.wrapping_mul(y),
        BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y.is_zero() => {
            trap(&f.name, "division by zero")
        }
        BinOp::UDiv => x / y,
        BinOp::URem => x % y,
        BinOp::SDiv | BinOp::SRem => {
            let (sx, sy) = (sign(a, bits), sign(b, bits));
            let (ex, ey) = (u(sext_to_256(*a, bits)), u(sext_to_256(*b, bits)));
            let ax = if sx { neg(ex) } else { ex };
            let ay = if sy { neg(ey) } else { ey };
            if sx && sy && ay == U256::from(1) && ax == (U256::from(1) << (bits as usize - 1)) {
                trap(&f.name, "signed division overflow");
            }
            if op == BinOp::SDiv {
                let q = ax / ay;
                if sx != sy { neg(q) } else { q }
            } else {
                let q = ax % ay;
                if sx { neg(q) } else { q }
            }
        }
        BinOp::UAddSat => {
            let (s, o) = x.overflowing_add(y);
            let max = u(mask([u64::MAX; 4], bits));
            if o || s > max { max } else { s }
        }
        BinOp::UMax => x.max(y),
        BinOp::UMin => x.min(y),
        BinOp::Or => x | y,
        BinOp::And => x & y,
        BinOp::Xor => x ^ y,
        BinOp::Shl | BinOp::LShr | BinOp::AShr => {
            if y >= U256::from(w) {
                return None;
            }
            let s = b[0] as usize;
            match op {
                BinOp::Shl => x << s,
                BinOp::LShr => x >> s,
                _ => {
                    let e = u(sext_to_256(*a, bits));
                    e.arithmetic_shr(s)
                }
            }
        }
    };
    Some(mask(*r.as_limbs(), bits))
}

fn un(op: UnOp, a: &[u64; 4], from: u16, to: u16) -> [u64; 4] {
    match op {
        UnOp::Not => mask([!a[0], !a[1], !a[2], !a[3]], from),
        UnOp::BSwap => {
            let n = from as usize / 8;
            let mut bytes = u(*a).to_le_bytes::<32>();
            bytes[..n].reverse();
            *U256::from_le_bytes(bytes).as_limbs()
        }
        UnOp::Clz => {
            let lz = u(*a).leading_zeros() as u64 - (256 - from as u64);
            mask([lz, 0, 0, 0], from)
        }
        UnOp::ZExt | UnOp::IntToPtr => mask(*a, to),
        UnOp::SExt => mask(sext_to_256(*a, from), to),
        UnOp::Trunc => mask(*a, to),
    }
}

#[inline(never)]
fn native_sp() -> usize {
    let x = 0u8;
    &raw const x as usize
}

const GARBAGE: u8 = 0xB7;
const POISON_BYTE: u8 = 0xBD;

/// Runs a function. Holds nothing that needs dropping across native calls.
fn run(env: &Env<'_>, fi: u32, args: &[u64; 6], wide: Option<&[Reg]>) -> Reg {
    let f = match env.m.funcs[fi as usize].as_ref() {
        Some(f) => f,
        None => trap("?", "call of a function without a body"),
    };
    let nregs = f.nregs as usize;
    let slots = f.slot_bytes as usize;
    let regs_bytes = nregs * size_of::<Reg>();
    let mem = frame_alloc(native_sp(), regs_bytes + slots + 64 + nregs + 64);
    let regs: &mut [Reg] = unsafe { std::slice::from_raw_parts_mut(mem.cast(), nregs) };
    let slot_base = unsafe { mem.add(regs_bytes.next_multiple_of(64)) };
    let st_ptr = unsafe { slot_base.add(slots) };
    let st: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(st_ptr, nregs) };
    st.fill(UNDEF);
    unsafe { std::ptr::write_bytes(slot_base, GARBAGE, slots) };
    for i in 0..f.nparams as usize {
        regs[i] = match wide {
            Some(w) => w[i],
            None => Reg { w: [args[i], 0, 0, 0] },
        };
        st[i] = OK;
    }
    // Small dead-on-return arguments are put back as if the stores to them had been elided.
    let mut saved = [0u64; 8];
    for (i, a) in f.pattrs.iter().enumerate() {
        if a.dead_on_return && a.deref == 8 {
            saved[i] = unsafe { *(regs[i].w[0] as *const u64) };
        }
    }
    let consts = &env.m.consts;

    macro_rules! get {
        ($o:expr) => {{
            let o = $o;
            if o & CONST != 0 {
                (consts[(o & !CONST) as usize], OK)
            } else {
                let s = st[o as usize];
                if s == UNDEF {
                    trap(&f.name, "use of an undefined SSA value");
                }
                (regs[o as usize].w, s)
            }
        }};
    }
    macro_rules! get_ok {
        ($o:expr, $what:literal) => {{
            let (w, s) = get!($o);
            if s == POISON {
                trap(&f.name, concat!($what, " is poison"));
            }
            w
        }};
    }
    macro_rules! set {
        ($d:expr, $w:expr, $s:expr) => {{
            regs[$d as usize] = Reg { w: $w };
            st[$d as usize] = $s;
        }};
    }

    let mut fuel = match FUEL.load(Ordering::Relaxed) {
        0 => usize::MAX,
        n => n,
    };
    let mut cur = 0u32;
    let mut prev;
    let mut pc = f.blocks[0].start as usize;
    macro_rules! goto {
        ($b:expr) => {{
            prev = cur;
            cur = $b;
            fuel -= 1;
            if fuel == 0 {
                trap(&f.name, "does not terminate");
            }
            let blk = &f.blocks[cur as usize];
            pc = blk.start as usize;
            if !blk.phis.is_empty() {
                let mut tmp: [([u64; 4], u8); 16] = [([0; 4], 0); 16];
                if blk.phis.len() > 16 {
                    trap(&f.name, "too many phis");
                }
                for (n, (_, inc)) in blk.phis.iter().enumerate() {
                    let Some((_, o)) = inc.iter().find(|(b, _)| *b == prev) else {
                        trap(&f.name, "phi without incoming value for edge")
                    };
                    tmp[n] = get!(*o);
                }
                for (n, (d, _)) in blk.phis.iter().enumerate() {
                    set!(*d, tmp[n].0, tmp[n].1);
                }
            }
            continue;
        }};
    }
    loop {
        let d = &f.code[pc];
        pc += 1;
        match d {
            D::Alloca { dst, off } => {
                let p = slot_base as u64 + *off as u64;
                set!(*dst, [p, 0, 0, 0], OK)
            }
            D::Load { dst, ptr, bytes, bits, align } => {
                let p = get_ok!(*ptr, "load address")[0] as usize;
                env.check_addr(f, p, *bytes as usize, *align as usize);
                let mut w = [0u64; 4];
                unsafe {
                    std::ptr::copy_nonoverlapping(
                        p as *const u8,
                        w.as_mut_ptr().cast::<u8>(),
                        *bytes as usize,
                    )
                };
                set!(*dst, mask(w, *bits), OK)
            }
            D::Store { ptr, val, bytes, align } => {
                let p = get_ok!(*ptr, "store address")[0] as usize;
                env.check_addr(f, p, *bytes as usize, *align as usize);
                let (w, s) = get!(*val);
                unsafe {
                    if s == POISON {
                        std::ptr::write_bytes(p as *mut u8, POISON_BYTE, *bytes as usize);
                    } else {
                        std::ptr::copy_nonoverlapping(
                            w.as_ptr().cast::<u8>(),
                            p as *mut u8,
                            *bytes as usize,
                        )
                    }
                }
            }
            D::Assume(v) => {
                if get_ok!(*v, "assume condition")[0] & 1 == 0 {
                    trap(&f.name, "assumption violated");
                }
            }
            D::ICmp(cc, dst, a, b, bits) => {
                let (x, s1) = get!(*a);
                let (y, s2) = get!(*b);
                let r = icmp(*cc, &x, &y, *bits);
                set!(*dst, [r as u64, 0, 0, 0], s1.max(s2))
            }
            D::Bin(op, dst, a, b, bits) => {
                let (x, s1) = get!(*a);
                let (y, s2) = get!(*b);
                if s1.max(s2) == POISON {
                    if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem)
                        && s2 == POISON
                    {
                        trap(&f.name, "division by poison");
                    }
                    set!(*dst, [0; 4], POISON)
                } else {
                    match bin(f, *op, &x, &y, *bits) {
                        Some(w) => set!(*dst, w, OK),
                        None => set!(*dst, [0xBADBADBADBAD; 4], POISON),
                    }
                }
            }
            D::Un(op, dst, a, from, to) => {
                let (x, s) = get!(*a);
                set!(*dst, un(*op, &x, *from, *to), s)
            }
            D::Select(dst, c, a, b) => {
                let (c, s) = get!(*c);
                if s == POISON {
                    set!(*dst, [0; 4], POISON)
                } else {
                    let (a, sa) = get!(*a);
                    let (b, sb) = get!(*b);
                    if c[0] & 1 == 1 { set!(*dst, a, sa) } else { set!(*dst, b, sb) }
                }
            }
            D::Gep { dst, ptr, idx } => {
                let (p, mut s) = get!(*ptr);
                let mut a = p[0];
                for (o, bits, scale) in idx.iter() {
                    let (i, si) = get!(*o);
                    s = s.max(si);
                    a = a.wrapping_add(sext_to_256(i, *bits)[0].wrapping_mul(*scale));
                }
                set!(*dst, [a, 0, 0, 0], s)
            }
            D::Call { dst, c } => {
                let ret = match &c.target {
                    Target::Nop => Reg { w: [0; 4] },
                    Target::Internal(g) => {
                        let mut w = [Reg { w: [0; 4] }; 8];
                        if c.args.len() > 8 {
                            trap(&f.name, "too many arguments");
                        }
                        for (i, a) in c.args.iter().enumerate() {
                            w[i] = Reg { w: get_ok!(*a, "call argument") };
                        }
                        run(env, *g, &[0; 6], Some(&w))
                    }
                    Target::Native(addr) => {
                        let mut a = [0u64; 6];
                        for (i, x) in c.args.iter().enumerate() {
                            a[i] = get_ok!(*x, "builtin argument")[0];
                        }
                        Reg { w: [native_call(env, f, c, *addr, &a), 0, 0, 0] }
                    }
                };
                if *dst != NONE {
                    set!(*dst, ret.w, OK)
                }
            }
            D::MemCpy(d, s, n) => {
                let d = get_ok!(*d, "memcpy dst")[0] as usize;
                let s = get_ok!(*s, "memcpy src")[0] as usize;
                let n = get_ok!(*n, "memcpy len")[0] as usize;
                if n > 0 {
                    env.check_addr(f, d, n, 1);
                    env.check_addr(f, s, n, 1);
                    if d < s + n && s < d + n && d != s {
                        trap(&f.name, "overlapping memcpy");
                    }
                    unsafe { std::ptr::copy(s as *const u8, d as *mut u8, n) };
                }
            }
            D::Br(b) => goto!(*b),
            D::BrIf(c, a, b) => {
                let c = get_ok!(*c, "branch condition")[0];
                goto!(if c & 1 == 1 { *a } else { *b })
            }
            D::Switch { v, default, map } => {
                let v = get_ok!(*v, "switch value");
                let b = if v[1] | v[2] | v[3] == 0 { map.get(&v[0]) } else { None };
                goto!(*b.unwrap_or(default))
            }
            D::Ret(v) => {
                let r = if *v == NONE { [0; 4] } else { get_ok!(*v, "return value") };
                for (i, a) in f.pattrs.iter().enumerate() {
                    if a.dead_on_return && a.deref == 8 {
                        unsafe { *(regs[i].w[0] as *mut u64) = saved[i] };
                    } else if a.dead_on_return && a.deref > 0 {
                        unsafe {
                            std::ptr::write_bytes(
                                regs[i].w[0] as *mut u8,
                                0xDD,
                                a.deref as usize,
                            )
                        };
                    }
                }
                frame_release(mem);
                return Reg { w: r };
            }
            D::Unreachable => trap(&f.name, "reached `unreachable`"),
        }
    }
}

type Native = unsafe extern "C" fn(u64, u64, u64, u64, u64, u64) -> u64;

#[inline(never)]
fn native_call(env: &Env<'_>, f: &DFunc, c: &DCall, addr: usize, a: &[u64; 6]) -> u64 {
    let mut snap = [0u8; 1024];
    let mut used = 0usize;
    for (i, at) in c.attrs.iter().enumerate() {
        if at.deref > 0 && at.align > 1 && a[i] % at.align != 0 {
            trap(&c.name, "argument violates its alignment attribute");
        }
        let n = at.deref as usize;
        if at.deref > 0 && env.zone != 0 {
            env.check_addr(f, a[i] as usize, n, 1);
        }
        if at.read_only && n > 0 && used + n <= snap.len() {
            unsafe {
                std::ptr::copy_nonoverlapping(a[i] as *const u8, snap.as_mut_ptr().add(used), n)
            };
            used += n;
        } else if at.write_only && at.initializes > 0 {
            unsafe {
                std::ptr::write_bytes(a[i] as *mut u8, POISON_BYTE, at.initializes as usize)
            };
        }
    }
    let r = unsafe {
        std::mem::transmute::<usize, Native>(addr)(a[0], a[1], a[2], a[3], a[4], a[5])
    };
    if c.no_return {
        trap(&c.name, "builtin declared noreturn has returned");
    }
    if let Some(fr) = env.freed
        && fr.load(Ordering::SeqCst)
    {
        trap(&f.name, "code was freed while it was running");
    }
    used = 0;
    for (i, at) in c.attrs.iter().enumerate() {
        let n = at.deref as usize;
        if at.read_only && n > 0 && used + n <= snap.len() {
            let now = unsafe { std::slice::from_raw_parts(a[i] as *const u8, n) };
            if now != &snap[used..used + n] {
                trap(&c.name, "builtin wrote through a pointer declared read-only");
            }
            used += n;
        }
    }
    r
}

// ---- Native entry points --------------------------------------------------------------------

pub struct Ctx {
    pub freed: AtomicBool,
    module: AtomicPtr<ExecModule>,
    func: u32,
    name: String,
    pub addr: usize,
}

fn enter(m: &ExecModule, freed: Option<&AtomicBool>, fi: u32, a0: u64, a1: u64, a2: u64) -> u64 {
    let zone = STACK_REDZONE.load(Ordering::Relaxed);
    let env = Env { m, freed, lo: a1 as usize, hi: a1 as usize + 1024 * 32, zone };
    run(&env, fi, &[a0, a1, a2, 0, 0, 0], None).w[0]
}

extern "C" fn jit_entry(a0: u64, a1: u64, a2: u64, ctx: *const Ctx) -> u64 {
    let ctx = unsafe { &*ctx };
    if ctx.freed.load(Ordering::SeqCst) {
        trap(&ctx.name, "call of freed code");
    }
    let m = ctx.module.load(Ordering::SeqCst);
    if m.is_null() {
        trap(&ctx.name, "call of freed code");
    }
    let r = enter(unsafe { &*m }, Some(&ctx.freed), ctx.func, a0, a1, a2);
    if ctx.freed.load(Ordering::SeqCst) {
        trap(&ctx.name, "code was freed while it was running");
    }
    r
}

struct StubPool {
    page: *mut u8,
    used: usize,
}
unsafe impl Send for StubPool {}

const STUB: usize = 32;
const PAGE: usize = 1 << 16;

fn make_stub(ctx: *const Ctx) -> usize {
    static POOL: Mutex<StubPool> = Mutex::new(StubPool { page: std::ptr::null_mut(), used: PAGE });
    let mut p = POOL.lock().unwrap_or_else(|e| e.into_inner());
    if p.used + STUB > PAGE {
        p.page = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                PAGE,
                libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
            .cast()
        };
        assert!(p.page as isize != -1, "mmap");
        p.used = 0;
    }
    let at = unsafe { p.page.add(p.used) };
    p.used += STUB;
    let mut code = vec![0x48u8, 0xb9];
    code.extend((ctx as u64).to_le_bytes()); // mov rcx, ctx
    code.extend([0x48, 0xb8]);
    code.extend((jit_entry as *const () as u64).to_le_bytes()); // mov rax, jit_entry
    code.extend([0xff, 0xe0]); // jmp rax
    unsafe { std::ptr::copy_nonoverlapping(code.as_ptr(), at, code.len()) };
    at as usize
}

fn registry() -> &'static Mutex<HashMap<usize, &'static Ctx>> {
    static R: OnceLock<Mutex<HashMap<usize, &'static Ctx>>> = OnceLock::new();
    R.get_or_init(Default::default)
}

pub fn is_live(addr: usize) -> bool {
    registry()
        .lock()
        .unwrap()
        .get(&addr)
        .is_some_and(|c| !c.freed.load(Ordering::SeqCst))
}

/// Code that was made executable from one module; freed as a unit.
pub struct Loaded {
    pub ctxs: Vec<&'static Ctx>,
    pub names: Vec<String>,
    module: Mutex<Option<Arc<ExecModule>>>,
    code_bytes: usize,
    data_bytes: usize,
    freed: AtomicBool,
}

pub static CODE_BYTES: AtomicUsize = AtomicUsize::new(0);
pub static DATA_BYTES: AtomicUsize = AtomicUsize::new(0);
/// When not zero, what every loaded module is said to occupy.
pub static FIXED_BYTES: AtomicUsize = AtomicUsize::new(0);

impl Loaded {
    pub fn new(m: &Module, resolve: &dyn Fn(&str) -> Option<usize>) -> Result<Arc<Self>, String> {
        let em = Arc::new(ExecModule::load(m, resolve)?);
        let mut ctxs = vec![];
        let mut names = vec![];
        for (i, f) in m.funcs.iter().enumerate() {
            if f.is_decl() || f.deleted || !f.public {
                continue;
            }
            let ctx: &'static mut Ctx = Box::leak(Box::new(Ctx {
                freed: AtomicBool::new(false),
                module: AtomicPtr::new(Arc::as_ptr(&em) as *mut _),
                func: i as u32,
                name: f.name.clone(),
                addr: 0,
            }));
            ctx.addr = make_stub(ctx);
            let ctx: &'static Ctx = ctx;
            registry().lock().unwrap().insert(ctx.addr, ctx);
            ctxs.push(ctx);
            names.push(f.name.clone());
            crate::control::COMMITTED.fetch_add(1, Ordering::SeqCst);
        }
        let (code_bytes, data_bytes) = match FIXED_BYTES.load(Ordering::SeqCst) {
            0 => (em.code_bytes, em.data_bytes),
            n => (n, 0),
        };
        CODE_BYTES.fetch_add(code_bytes, Ordering::SeqCst);
        DATA_BYTES.fetch_add(data_bytes, Ordering::SeqCst);
        Ok(Arc::new(Self {
            ctxs,
            names,
            code_bytes,
            data_bytes,
            module: Mutex::new(Some(em)),
            freed: AtomicBool::new(false),
        }))
    }

    /// Frees the code. Calling it, or returning into it, traps from now on.
    pub fn free(&self) {
        if self.freed.swap(true, Ordering::SeqCst) {
            return;
        }
        for c in &self.ctxs {
            c.freed.store(true, Ordering::SeqCst);
            crate::control::FREED.fetch_add(1, Ordering::SeqCst);
        }
        CODE_BYTES.fetch_sub(self.code_bytes, Ordering::SeqCst);
        DATA_BYTES.fetch_sub(self.data_bytes, Ordering::SeqCst);
        // Keep the last few around so that a use after free is reported, not undefined.
        static QUARANTINE: Mutex<VecDeque<(Arc<ExecModule>, Vec<&'static Ctx>)>> =
            Mutex::new(VecDeque::new());
        if let Some(m) = self.module.lock().unwrap().take() {
            let mut q = QUARANTINE.lock().unwrap();
            q.push_back((m, self.ctxs.clone()));
            if q.len() > 256 {
                let (m, ctxs) = q.pop_front().unwrap();
                for c in ctxs {
                    c.module.store(std::ptr::null_mut(), Ordering::SeqCst);
                }
                drop(m);
            }
        }
    }
}

// ---- AOT ------------------------------------------------------------------------------------

/// Descriptor emitted into AOT objects, one per public function.
#[repr(C)]
pub struct AotDesc {
    blob: *const u8,
    len: u64,
    func: u64,
    cache: AtomicPtr<ExecModule>,
}

/// Entry of ahead-of-time compiled functions; objects refer to it by name.
///
/// # Safety
/// Only called by emitted stubs.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn revmc_fake_llvm_aot_entry(
    a0: u64,
    a1: u64,
    a2: u64,
    desc: *const AotDesc,
) -> u64 {
    let desc = unsafe { &*desc };
    let mut m = desc.cache.load(Ordering::SeqCst);
    if m.is_null() {
        let blob = unsafe { std::slice::from_raw_parts(desc.blob, desc.len as usize) };
        let module: Module = match serde_json::from_slice(blob) {
            Ok(m) => m,
            Err(_) => trap("aot", "corrupt object"),
        };
        let resolve = |name: &str| {
            let c = CString::new(name).unwrap();
            let p = unsafe { libc::dlsym(libc::RTLD_DEFAULT, c.as_ptr()) };
            (!p.is_null()).then_some(p as usize)
        };
        match ExecModule::load(&module, &resolve) {
            Ok(em) => {
                let new = Box::into_raw(Box::new(em));
                // Leaked on purpose if two threads race.
                m = match desc.cache.compare_exchange(
                    std::ptr::null_mut(),
                    new,
                    Ordering::SeqCst,
                    Ordering::SeqCst,
                ) {
                    Ok(_) => new,
                    Err(o) => o,
                };
            }
            Err(e) => trap("aot", &e),
        }
    }
    enter(unsafe { &*m }, None, desc.func as u32, a0, a1, a2)
}

/// Emits an ELF relocatable object holding `m`.
pub fn emit_object(m: &Module) -> Result<Vec<u8>, String> {
    static N: AtomicUsize = AtomicUsize::new(0);
    let blob = serde_json::to_vec(m).map_err(|e| e.to_string())?;
    let dir = std::env::temp_dir().join(format!(
        "revmc-fake-llvm-{}-{}",
        std::process::id(),
        N.fetch_add(1, Ordering::SeqCst)
    ));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let blob_path = dir.join("blob");
    std::fs::write(&blob_path, &blob).map_err(|e| e.to_string())?;
    let mut s = String::from(".section .rodata\n.Lblob:\n");
    s += &format!(".incbin \"{}\"\n", blob_path.display());
    for (i, f) in m.funcs.iter().enumerate() {
        if f.is_decl() || f.deleted || !f.public {
            continue;
        }
        s += &format!(
            ".data\n.balign 8\n.Ldesc{i}:\n.quad .Lblob\n.quad {}\n.quad {i}\n.quad 0\n\
             .text\n.globl \"{n}\"\n.type \"{n}\",@function\n\"{n}\":\n\
             lea .Ldesc{i}(%rip), %rcx\njmp revmc_fake_llvm_aot_entry@PLT\n.size \"{n}\", .-\"{n}\"\n",
            blob.len(),
            n = f.name,
        );
    }
    s += ".section .note.GNU-stack,\"\",@progbits\n";
    let (sp, op) = (dir.join("a.s"), dir.join("a.o"));
    std::fs::write(&sp, s).map_err(|e| e.to_string())?;
    let out = std::process::Command::new("as").arg("-o").arg(&op).arg(&sp).output();
    let r = match out {
        Ok(o) if o.status.success() => std::fs::read(&op).map_err(|e| e.to_string()),
        Ok(o) => Err(String::from_utf8_lossy(&o.stderr).into_owned()),
        Err(e) => Err(e.to_string()),
    };
    let _ = std::fs::remove_dir_all(&dir);
    r
}

/// The module an object holds: the object itself, or the read-only data of an ELF file.
pub fn object_module(o: &[u8]) -> Option<&[u8]> {
    if !o.starts_with(b"\x7fELF") {
        return Some(o);
    }
    let num = |at: usize, n: usize| Some(o.get(at..at + n)?.iter().rev().fold(0usize, |a, b| a << 8 | *b as usize));
    let (off, size, count, names) = (num(40, 8)?, num(58, 2)?, num(60, 2)?, num(62, 2)?);
    let strings = num(off + names * size + 24, 8)?;
    for k in 0..count {
        let h = off + k * size;
        if o.get(strings + num(h, 4)?..)?.starts_with(b".rodata\0") {
            let at = num(h + 24, 8)?;
            return o.get(at..at + num(h + 32, 8)?);
        }
    }
    None
}
