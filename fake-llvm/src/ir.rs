//! In-memory IR of the stand-in backend, and its structural verifier.
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ty {
    Ptr,
    Int(u32),
    /// `n` elements of `elem` bytes.
    Array { elem: u32, n: u32 },
}

impl Ty {
    pub fn bits(self) -> u32 {
        match self {
            Ty::Ptr => 64,
            Ty::Int(b) => b,
            Ty::Array { .. } => panic!("array has no bit width"),
        }
    }
    /// Store size in bytes.
    pub fn store_bytes(self) -> usize {
        match self {
            Ty::Array { elem, n } => elem as usize * n as usize,
            t => (t.bits() as usize).div_ceil(8),
        }
    }
    /// Allocation size in bytes (what `gep` scales by).
    pub fn alloc_bytes(self) -> usize {
        match self {
            Ty::Int(b) if b <= 64 => (b as usize).div_ceil(8).next_power_of_two(),
            Ty::Int(b) => (b as usize).div_ceil(64) * 8,
            t => t.store_bytes(),
        }
    }
    pub fn natural_align(self) -> usize {
        match self {
            Ty::Ptr => 8,
            Ty::Int(b) if b <= 64 => (b as usize).div_ceil(8).next_power_of_two(),
            Ty::Int(_) => 8,
            Ty::Array { .. } => 1,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum VK {
    Const(u32),
    Str(u32),
    Param(u32),
    Inst(u32),
}

/// An SSA value. `func` is the function that owns it (`u32::MAX` for constants).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Val {
    pub k: VK,
    pub func: u32,
    pub ty: Ty,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Bb {
    pub func: u32,
    pub idx: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Fun(pub u32);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Cc {
    Eq,
    Ne,
    Slt,
    Sge,
    Sgt,
    Sle,
    Ult,
    Uge,
    Ugt,
    Ule,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    UAddSat,
    UMax,
    UMin,
    Or,
    And,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum UnOp {
    BSwap,
    Not,
    Clz,
    ZExt,
    SExt,
    Trunc,
    IntToPtr,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Alloca { ty: Ty },
    Load { ptr: Val, align: u32 },
    Store { ptr: Val, val: Val, align: u32 },
    Assume(Val),
    ICmp(Cc, Val, Val),
    Bin(BinOp, Val, Val),
    Un(UnOp, Val),
    Select(Val, Val, Val),
    Gep { elem: Ty, ptr: Val, idx: Vec<Val> },
    Call { f: Fun, args: Vec<Val> },
    MemCpy { dst: Val, src: Val, len: Val },
    Phi(Vec<(Val, Bb)>),
    // Terminators.
    Br(Bb),
    BrIf(Val, Bb, Bb),
    Switch { v: Val, default: Bb, targets: Vec<(u64, Bb)> },
    Ret(Option<Val>),
    Unreachable,
}

impl Op {
    pub fn is_term(&self) -> bool {
        matches!(
            self,
            Op::Br(_) | Op::BrIf(..) | Op::Switch { .. } | Op::Ret(_) | Op::Unreachable
        )
    }
    pub fn succs(&self) -> Vec<Bb> {
        match self {
            Op::Br(b) => vec![*b],
            Op::BrIf(_, a, b) => vec![*a, *b],
            Op::Switch { default, targets, .. } => {
                let mut v = vec![*default];
                v.extend(targets.iter().map(|t| t.1));
                v
            }
            _ => vec![],
        }
    }
    pub fn operands(&self) -> Vec<Val> {
        match self {
            Op::Alloca { .. } | Op::Br(_) | Op::Unreachable | Op::Phi(_) | Op::Ret(None) => vec![],
            Op::Load { ptr, .. } => vec![*ptr],
            Op::Store { ptr, val, .. } => vec![*ptr, *val],
            Op::Assume(v) | Op::Un(_, v) | Op::BrIf(v, ..) | Op::Ret(Some(v)) => vec![*v],
            Op::ICmp(_, a, b) | Op::Bin(_, a, b) => vec![*a, *b],
            Op::Select(a, b, c) => vec![*a, *b, *c],
            Op::Gep { ptr, idx, .. } => {
                let mut v = vec![*ptr];
                v.extend(idx);
                v
            }
            Op::Call { args, .. } => args.clone(),
            Op::MemCpy { dst, src, len } => vec![*dst, *src, *len],
            Op::Switch { v, .. } => vec![*v],
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inst {
    pub op: Op,
    /// Result type, if the instruction yields a value.
    pub ty: Option<Ty>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Block {
    pub insts: Vec<u32>,
}

#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize)]
pub struct ParamAttrs {
    pub deref: u64,
    pub align: u64,
    pub read_only: bool,
    pub read_none: bool,
    pub write_only: bool,
    pub initializes: u64,
    pub dead_on_return: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Func {
    pub name: String,
    pub params: Vec<Ty>,
    pub ret: Option<Ty>,
    pub public: bool,
    pub no_return: bool,
    pub blocks: Vec<Block>,
    pub insts: Vec<Inst>,
    pub pattrs: Vec<ParamAttrs>,
    pub deleted: bool,
}

impl Func {
    pub fn is_decl(&self) -> bool {
        self.blocks.is_empty()
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Module {
    pub name: String,
    pub funcs: Vec<Func>,
    pub consts: Vec<[u64; 4]>,
    pub strs: Vec<String>,
    #[serde(skip)]
    pub by_name: HashMap<String, u32>,
}

impl Module {
    pub fn size_estimate(&self) -> (usize, usize) {
        let code = self.funcs.iter().map(|f| f.insts.len() * 16).sum::<usize>();
        (code.next_multiple_of(64), (self.consts.len() * 8).next_multiple_of(64))
    }

    /// Structural verification: what LLVM's module verifier would reject.
    pub fn verify(&self) -> Result<(), String> {
        for (fi, f) in self.funcs.iter().enumerate() {
            if f.is_decl() || f.deleted {
                continue;
            }
            self.verify_fn(fi as u32, f).map_err(|e| format!("in function {}: {e}", f.name))?;
        }
        Ok(())
    }

    fn verify_fn(&self, fi: u32, f: &Func) -> Result<(), String> {
        let nb = f.blocks.len();
        let mut preds: Vec<Vec<u32>> = vec![vec![]; nb];
        let mut inst_block = vec![u32::MAX; f.insts.len()];
        let mut inst_pos = vec![0u32; f.insts.len()];
        for (bi, b) in f.blocks.iter().enumerate() {
            let Some(last) = b.insts.last() else {
                return Err(format!("block {bi} is empty (no terminator)"));
            };
            if !f.insts[*last as usize].op.is_term() {
                return Err(format!("block {bi} does not end in a terminator"));
            }
            let mut seen_non_phi = false;
            for (pos, &i) in b.insts.iter().enumerate() {
                inst_block[i as usize] = bi as u32;
                inst_pos[i as usize] = pos as u32;
                let op = &f.insts[i as usize].op;
                if op.is_term() && pos + 1 != b.insts.len() {
                    return Err(format!("terminator in the middle of block {bi}"));
                }
                if matches!(op, Op::Phi(_)) {
                    if seen_non_phi {
                        return Err(format!("phi not grouped at top of block {bi}"));
                    }
                } else {
                    seen_non_phi = true;
                }
                for s in op.succs() {
                    if s.func != fi {
                        return Err(format!("block {bi} branches into another function"));
                    }
                    if s.idx == 0 {
                        return Err("entry block has predecessors".into());
                    }
                    preds[s.idx as usize].push(bi as u32);
                }
            }
        }
        // Reverse post order and immediate dominators (Cooper, Harvey, Kennedy).
        let succs: Vec<Vec<u32>> = f
            .blocks
            .iter()
            .map(|b| {
                f.insts[*b.insts.last().unwrap() as usize]
                    .op
                    .succs()
                    .iter()
                    .map(|s| s.idx)
                    .collect()
            })
            .collect();
        let mut order = Vec::with_capacity(nb);
        let mut state = vec![0u8; nb];
        let mut stack = vec![(0u32, 0usize)];
        state[0] = 1;
        while let Some((b, i)) = stack.pop() {
            if i < succs[b as usize].len() {
                stack.push((b, i + 1));
                let s = succs[b as usize][i];
                if state[s as usize] == 0 {
                    state[s as usize] = 1;
                    stack.push((s, 0));
                }
            } else {
                order.push(b);
            }
        }
        order.reverse();
        let mut rpo = vec![u32::MAX; nb];
        for (i, &b) in order.iter().enumerate() {
            rpo[b as usize] = i as u32;
        }
        let mut idom = vec![u32::MAX; nb];
        idom[0] = 0;
        let mut changed = true;
        while changed {
            changed = false;
            for &b in order.iter().skip(1) {
                let mut new = u32::MAX;
                for &p in &preds[b as usize] {
                    if idom[p as usize] == u32::MAX {
                        continue;
                    }
                    if new == u32::MAX {
                        new = p;
                    } else {
                        let (mut x, mut y) = (p, new);
                        while x != y {
                            while rpo[x as usize] > rpo[y as usize] {
                                x = idom[x as usize];
                            }
                            while rpo[y as usize] > rpo[x as usize] {
                                y = idom[y as usize];
                            }
                        }
                        new = x;
                    }
                }
                if idom[b as usize] != new {
                    idom[b as usize] = new;
                    changed = true;
                }
            }
        }
        // Dominator tree in/out numbers.
        let mut children: Vec<Vec<u32>> = vec![vec![]; nb];
        for &b in order.iter().skip(1) {
            children[idom[b as usize] as usize].push(b);
        }
        let mut tin = vec![0u32; nb];
        let mut tout = vec![0u32; nb];
        let mut t = 0u32;
        let mut stack = vec![(0u32, 0usize)];
        while let Some((b, i)) = stack.pop() {
            if i == 0 {
                t += 1;
                tin[b as usize] = t;
            }
            if i < children[b as usize].len() {
                stack.push((b, i + 1));
                stack.push((children[b as usize][i], 0));
            } else {
                t += 1;
                tout[b as usize] = t;
            }
        }
        let reachable = |b: u32| rpo[b as usize] != u32::MAX;
        let dom = |a: u32, b: u32| tin[a as usize] <= tin[b as usize] && tout[b as usize] <= tout[a as usize];
        let check_val = |v: Val| -> Result<(), String> {
            match v.k {
                VK::Const(_) | VK::Str(_) => Ok(()),
                VK::Param(i) => {
                    if v.func != fi || i as usize >= f.params.len() {
                        return Err("parameter of another function used".into());
                    }
                    Ok(())
                }
                VK::Inst(i) => {
                    if v.func != fi {
                        return Err("instruction of another function used".into());
                    }
                    if inst_block[i as usize] == u32::MAX {
                        return Err("use of a detached instruction".into());
                    }
                    Ok(())
                }
            }
        };
        for (bi, b) in f.blocks.iter().enumerate() {
            let bi = bi as u32;
            let mut pset = preds[bi as usize].clone();
            pset.sort_unstable();
            for (pos, &i) in b.insts.iter().enumerate() {
                let inst = &f.insts[i as usize];
                if let Op::Phi(inc) = &inst.op {
                    let mut got: Vec<u32> = inc.iter().map(|(_, b)| b.idx).collect();
                    got.sort_unstable();
                    got.dedup();
                    let mut want = pset.clone();
                    want.dedup();
                    if got != want {
                        return Err(format!(
                            "phi in block {bi} has incoming blocks {got:?}, predecessors are {want:?}"
                        ));
                    }
                    for (v, from) in inc {
                        check_val(*v)?;
                        if Some(v.ty) != inst.ty {
                            return Err(format!("phi type mismatch {:?} vs {:?}", v.ty, inst.ty));
                        }
                        if let VK::Inst(d) = v.k
                            && reachable(from.idx)
                            && !dom(inst_block[d as usize], from.idx)
                        {
                            return Err(format!("phi operand does not dominate edge in block {bi}"));
                        }
                    }
                    continue;
                }
                for v in inst.op.operands() {
                    check_val(v)?;
                    if let VK::Inst(d) = v.k
                        && reachable(bi)
                    {
                        let db = inst_block[d as usize];
                        let ok = if db == bi {
                            (inst_pos[d as usize] as usize) < pos
                        } else {
                            reachable(db) && dom(db, bi)
                        };
                        if !ok {
                            return Err(format!(
                                "instruction does not dominate all uses (block {bi}: {:?})",
                                inst.op
                            ));
                        }
                    }
                }
                self.verify_types(f, inst)?;
            }
        }
        Ok(())
    }

    fn verify_types(&self, f: &Func, inst: &Inst) -> Result<(), String> {
        let bad = |m: &str| Err(format!("{m}: {:?}", inst.op));
        let is_int = |t: Ty| matches!(t, Ty::Int(_));
        match &inst.op {
            Op::Load { ptr, .. } if ptr.ty != Ty::Ptr => bad("load from non-pointer"),
            Op::Store { ptr, .. } if ptr.ty != Ty::Ptr => bad("store to non-pointer"),
            Op::Assume(v) | Op::BrIf(v, ..) if v.ty != Ty::Int(1) => bad("condition is not i1"),
            Op::ICmp(_, a, b) if a.ty != b.ty => bad("icmp operand types differ"),
            Op::Bin(_, a, b) if a.ty != b.ty || !is_int(a.ty) => bad("binary operand types differ"),
            Op::Select(c, a, b) if c.ty != Ty::Int(1) || a.ty != b.ty => bad("select types"),
            Op::Gep { ptr, .. } if ptr.ty != Ty::Ptr => bad("gep of non-pointer"),
            Op::Un(UnOp::ZExt | UnOp::SExt, v) if v.ty.bits() >= inst.ty.unwrap().bits() => {
                bad("extension does not widen")
            }
            Op::Un(UnOp::Trunc, v) if v.ty.bits() <= inst.ty.unwrap().bits() => {
                bad("truncation does not narrow")
            }
            Op::Un(UnOp::BSwap, v) if v.ty.bits() % 16 != 0 => bad("bswap width"),
            Op::Call { f: g, args } => {
                let g = &self.funcs[g.0 as usize];
                if g.name == "printf" {
                    return Ok(());
                }
                if g.params.len() != args.len() || g.params.iter().zip(args).any(|(p, a)| *p != a.ty)
                {
                    return bad("call signature mismatch");
                }
                Ok(())
            }
            Op::Switch { v, targets, .. } => {
                let mut t: Vec<u64> = targets.iter().map(|t| t.0).collect();
                t.sort_unstable();
                let n = t.len();
                t.dedup();
                if t.len() != n {
                    return bad("duplicate switch case");
                }
                if !is_int(v.ty) {
                    return bad("switch on non-integer");
                }
                Ok(())
            }
            Op::Ret(v) => {
                if v.map(|v| v.ty) != f.ret {
                    return bad("return type mismatch");
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }
}
