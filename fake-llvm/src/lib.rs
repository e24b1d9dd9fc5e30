//! Stand-in for `revmc-llvm`.
//!
//! LLVM is not available where the checks run, so this crate implements the same backend traits over
//! an in-memory SSA IR that is interpreted. What the rest of revmc emits (translated bytecode, IR
//! builtins, calls into the native builtins) is executed as emitted; behaviour LLVM leaves undefined
//! is reported as a trap instead. See DESIGN.md.
#![allow(clippy::missing_safety_doc, missing_docs)]

pub mod control;
pub mod exec;
pub mod ir;
pub mod orc;

use exec::Loaded;
use ir::*;
use revmc_backend::{
    Attribute, Backend, BackendConfig, BackendTypes, Builder, CallConv, FunctionAttributeLocation,
    IntCC, Linkage, Result, TailCallKind, TypeMethods, U256, eyre,
};
use std::{
    collections::HashMap,
    ffi::{CStr, CString},
    fmt,
    path::Path,
    sync::{
        Arc, Mutex, OnceLock,
        atomic::{AtomicBool, Ordering},
    },
};

#[derive(Clone, Copy, Debug, Default)]
pub struct JitMemoryUsage {
    pub code_bytes: usize,
    pub data_bytes: usize,
}

impl JitMemoryUsage {
    pub fn total_bytes(&self) -> usize {
        self.code_bytes + self.data_bytes
    }
}

impl fmt::Display for JitMemoryUsage {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "total: {}", self.total_bytes())
    }
}

static JIT_INIT: AtomicBool = AtomicBool::new(false);

pub fn jit_memory_usage() -> Option<JitMemoryUsage> {
    JIT_INIT.load(Ordering::SeqCst).then(|| JitMemoryUsage {
        code_bytes: exec::CODE_BYTES.load(Ordering::SeqCst),
        data_bytes: exec::DATA_BYTES.load(Ordering::SeqCst),
    })
}

pub fn global_gc() {}

fn builtins() -> &'static Mutex<HashMap<String, usize>> {
    static B: OnceLock<Mutex<HashMap<String, usize>>> = OnceLock::new();
    B.get_or_init(Default::default)
}

fn define_builtins(symbols: &[(CString, usize)]) {
    let mut b = builtins().lock().unwrap();
    for (name, addr) in symbols {
        b.entry(name.to_string_lossy().into_owned()).or_insert(*addr);
    }
}

/// Symbol table of one JITDylib.
pub struct Dylib {
    state: Mutex<Vec<Arc<Loaded>>>,
}

impl Dylib {
    fn new() -> Arc<Self> {
        JIT_INIT.store(true, Ordering::SeqCst);
        Arc::new(Self { state: Mutex::new(vec![]) })
    }
    fn lookup(&self, name: &str) -> Option<usize> {
        self.state.lock().unwrap().iter().find_map(|l| {
            l.names.iter().position(|n| n == name).map(|i| l.ctxs[i].addr)
        })
    }
    fn clear(&self) {
        for l in self.state.lock().unwrap().drain(..) {
            l.free();
        }
    }
    pub(crate) fn forget(&self, loaded: &Arc<Loaded>) {
        self.state.lock().unwrap().retain(|l| !Arc::ptr_eq(l, loaded));
    }
    fn add(&self, m: &Module) -> Result<Arc<Loaded>, String> {
        for f in &m.funcs {
            if f.public && !f.is_decl() && !f.deleted && self.lookup(&f.name).is_some() {
                return Err(format!("Duplicate definition of symbol '{}'", f.name));
            }
        }
        let loaded = {
            let b = builtins().lock().unwrap();
            Loaded::new(m, &|n| b.get(n).copied())?
        };
        self.state.lock().unwrap().push(loaded.clone());
        Ok(loaded)
    }
}

/// Keeps a JITDylib, and all code in it, alive.
pub struct JitDylibGuard {
    dylib: Arc<Dylib>,
}

impl fmt::Debug for JitDylibGuard {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JitDylibGuard")
    }
}

impl Drop for JitDylibGuard {
    fn drop(&mut self) {
        self.dylib.clear();
    }
}

struct OrcState {
    guard: Arc<JitDylibGuard>,
    staged: HashMap<u32, u32>,
    pending: Vec<(CString, usize)>,
    trackers: Vec<orc::ResourceTracker>,
    committed: HashMap<u32, usize>,
    last_sizes: Vec<(String, usize)>,
}

#[must_use]
pub struct EvmLlvmBackend {
    module: Module,
    cur: Option<Bb>,
    orc: Option<OrcState>,
    aot: bool,
    config: BackendConfig,
    counter: u32,
    names: HashMap<u32, String>,
}

impl fmt::Debug for EvmLlvmBackend {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("EvmLlvmBackend").field("aot", &self.aot).finish_non_exhaustive()
    }
}

fn err(e: impl fmt::Display) -> eyre::Report {
    eyre::eyre!("{e}")
}

impl EvmLlvmBackend {
    pub fn new(aot: bool) -> Result<Self> {
        Ok(Self {
            module: Module::default(),
            cur: None,
            orc: None,
            aot,
            config: BackendConfig::default(),
            counter: 0,
            names: HashMap::new(),
        })
    }

    fn ensure_orc(&mut self) -> &mut OrcState {
        self.orc.get_or_insert_with(|| OrcState {
            guard: Arc::new(JitDylibGuard { dylib: Dylib::new() }),
            staged: HashMap::new(),
            pending: vec![],
            trackers: vec![],
            committed: HashMap::new(),
            last_sizes: vec![],
        })
    }

    fn commit(&mut self) -> Result<()> {
        if self.aot || self.orc.as_ref().is_none_or(|o| o.staged.is_empty()) {
            return Ok(());
        }
        let module = std::mem::take(&mut self.module);
        self.cur = None;
        let orc = self.orc.as_mut().unwrap();
        define_builtins(&std::mem::take(&mut orc.pending));
        let loaded = orc.guard.dylib.add(&module).map_err(err)?;
        orc.last_sizes = module
            .funcs
            .iter()
            .filter(|f| f.public && !f.is_decl())
            .map(|f| (f.name.clone(), f.insts.len() * 16))
            .collect();
        orc.last_sizes.sort_by_key(|(_, s)| std::cmp::Reverse(*s));
        let idx = orc.trackers.len();
        for &id in orc.staged.keys() {
            orc.committed.insert(id, idx);
        }
        orc.trackers
            .push(orc::ResourceTracker { loaded, dylib: orc.guard.dylib.clone() });
        orc.staged.clear();
        Ok(())
    }

    pub fn pending_symbol_names(&self) -> Vec<CString> {
        self.orc
            .as_ref()
            .map(|o| o.pending.iter().map(|(n, _)| n.clone()).collect())
            .unwrap_or_default()
    }

    fn link_in(
        dylib: &Arc<Dylib>,
        symbol: &CStr,
        object: &[u8],
        symbols: &[(CString, usize)],
    ) -> Result<(usize, orc::ResourceTracker)> {
        let name = symbol.to_string_lossy();
        control::gate(control::Phase::Link, &name).map_err(err)?;
        define_builtins(symbols);
        let blob = exec::object_module(object).ok_or_else(|| err("bad object"))?;
        let module: Module = serde_json::from_slice(blob).map_err(|e| err(format!("bad object: {e}")))?;
        // Linking resolves against what was passed in or defined before, nothing else.
        let loaded = dylib.add(&module).map_err(err)?;
        let addr = dylib
            .lookup(&name)
            .ok_or_else(|| err(format!("Symbols not found: [ {name} ]")))?;
        Ok((addr, orc::ResourceTracker { loaded, dylib: dylib.clone() }))
    }

    pub fn link_jit_object(
        &mut self,
        symbol_name: &CStr,
        object: &[u8],
        symbols: &[(CString, usize)],
    ) -> Result<(usize, orc::ResourceTracker)> {
        let dylib = self.ensure_orc().guard.dylib.clone();
        Self::link_in(&dylib, symbol_name, object, symbols)
    }

    pub fn link_jit_object_in_fresh_dylib(
        &mut self,
        symbol_name: &CStr,
        object: &[u8],
        symbols: &[(CString, usize)],
    ) -> Result<(usize, orc::ResourceTracker, Arc<JitDylibGuard>)> {
        self.ensure_orc();
        let guard = Arc::new(JitDylibGuard { dylib: Dylib::new() });
        let (addr, t) = Self::link_in(&guard.dylib, symbol_name, object, symbols)?;
        Ok((addr, t, guard))
    }

    pub fn take_last_resource_tracker(&mut self) -> Option<orc::ResourceTracker> {
        let orc = self.orc.as_mut()?;
        let t = orc.trackers.pop()?;
        let idx = orc.trackers.len();
        orc.committed.retain(|_, i| *i != idx);
        Some(t)
    }

    pub fn jit_dylib_guard(&self) -> Arc<JitDylibGuard> {
        Arc::clone(&self.orc.as_ref().expect("jit_dylib_guard called in AOT mode").guard)
    }

    fn new_fn(&mut self, name: &str, ret: Option<Ty>, params: &[Ty], linkage: Linkage) -> u32 {
        let idx = self.module.funcs.len() as u32;
        let mut unique = name.to_string();
        let mut n = 0;
        while self.module.by_name.contains_key(&unique) {
            n += 1;
            unique = format!("{name}.{n}");
        }
        self.module.by_name.insert(unique.clone(), idx);
        self.module.funcs.push(Func {
            name: unique,
            params: params.to_vec(),
            ret,
            public: linkage == Linkage::Public,
            no_return: false,
            blocks: vec![],
            insts: vec![],
            pattrs: vec![ParamAttrs::default(); params.len()],
            deleted: false,
        });
        idx
    }

    fn konst(&mut self, ty: Ty, w: [u64; 4]) -> Val {
        let id = self.module.consts.len() as u32;
        self.module.consts.push(w);
        Val { k: VK::Const(id), func: u32::MAX, ty }
    }
}

impl BackendTypes for EvmLlvmBackend {
    type Type = Ty;
    type Value = Val;
    type StackSlot = Val;
    type BasicBlock = Bb;
    type Function = Fun;
}

impl TypeMethods for EvmLlvmBackend {
    fn type_ptr(&self) -> Ty {
        Ty::Ptr
    }
    fn type_ptr_sized_int(&self) -> Ty {
        Ty::Int(64)
    }
    fn type_int(&self, bits: u32) -> Ty {
        assert!(bits > 0 && bits <= 256, "unsupported integer width {bits}");
        Ty::Int(bits)
    }
    fn type_array(&self, ty: Ty, size: u32) -> Ty {
        Ty::Array { elem: ty.alloc_bytes() as u32, n: size }
    }
    fn type_bit_width(&self, ty: Ty) -> u32 {
        match ty {
            Ty::Int(b) => b,
            t => panic!("not an integer type: {t:?}"),
        }
    }
}

impl Backend for EvmLlvmBackend {
    type Builder<'a>
        = EvmLlvmBuilder<'a>
    where
        Self: 'a;
    type FuncId = u32;

    fn ir_extension(&self) -> &'static str {
        "ll"
    }
    fn set_module_name(&mut self, name: &str) {
        self.module.name = name.into();
    }
    fn config(&self) -> &BackendConfig {
        &self.config
    }
    fn apply_config(&mut self, config: BackendConfig) {
        self.config = config;
    }
    fn dump_ir(&mut self, path: &Path) -> Result<()> {
        std::fs::write(path, format!("{:#?}", self.module.funcs))?;
        Ok(())
    }
    fn dump_disasm(&mut self, path: &Path) -> Result<()> {
        std::fs::write(path, "")?;
        Ok(())
    }
    fn is_aot(&self) -> bool {
        self.aot
    }
    fn function_name_is_unique(&self, name: &str) -> bool {
        !self.module.by_name.contains_key(name)
    }

    fn build_function(
        &mut self,
        name: &str,
        ret: Option<Ty>,
        params: &[Ty],
        _param_names: &[&str],
        linkage: Linkage,
    ) -> Result<(EvmLlvmBuilder<'_>, u32)> {
        control::gate(control::Phase::Build, name).map_err(err)?;
        if !self.aot {
            self.ensure_orc();
        }
        let func = self.new_fn(name, ret, params, linkage);
        self.module.funcs[func as usize].blocks.push(Block::default());
        self.cur = Some(Bb { func, idx: 0 });
        let id = self.counter;
        self.counter += 1;
        self.names.insert(id, name.to_string());
        if let Some(orc) = &mut self.orc {
            orc.staged.insert(id, func);
        }
        Ok((EvmLlvmBuilder { backend: self, func }, id))
    }

    fn verify_module(&mut self) -> Result<()> {
        self.module.verify().map_err(err)
    }
    fn optimize_module(&mut self) -> Result<()> {
        Ok(())
    }
    fn write_object<W: std::io::Write>(&mut self, mut w: W) -> Result<()> {
        control::gate(control::Phase::Codegen, &self.module.name.clone()).map_err(err)?;
        let data = if self.aot {
            exec::emit_object(&self.module).map_err(err)?
        } else {
            serde_json::to_vec(&self.module)?
        };
        w.write_all(&data)?;
        Ok(())
    }
    fn jit_function(&mut self, id: u32) -> Result<usize> {
        let name = self.names[&id].clone();
        control::gate(control::Phase::Codegen, &name).map_err(err)?;
        self.ensure_orc();
        self.commit()?;
        self.orc
            .as_ref()
            .unwrap()
            .guard
            .dylib
            .lookup(&name)
            .ok_or_else(|| err(format!("Symbols not found: [ {name} ]")))
    }
    fn function_name(&self, id: u32) -> Option<&str> {
        self.names.get(&id).map(|s| s.as_str())
    }
    fn function_sizes(&self) -> Vec<(String, usize)> {
        let Some(orc) = &self.orc else { return vec![] };
        orc.last_sizes
            .iter()
            .filter(|(n, _)| self.names.values().any(|m| m == n))
            .cloned()
            .collect()
    }
    fn clear_ir(&mut self) -> Result<()> {
        self.names.clear();
        self.module = Module::default();
        self.cur = None;
        if let Some(orc) = &mut self.orc {
            orc.staged.clear();
            orc.pending.clear();
        }
        Ok(())
    }
    unsafe fn free_function(&mut self, id: u32) -> Result<()> {
        if let Some(orc) = &mut self.orc {
            if let Some(f) = orc.staged.remove(&id) {
                let f = &mut self.module.funcs[f as usize];
                f.deleted = true;
                self.module.by_name.remove(&f.name);
            }
            if let Some(idx) = orc.committed.remove(&id) {
                orc.trackers[idx].remove().map_err(err)?;
                let names = &mut self.names;
                orc.committed.retain(|co, i| {
                    if *i == idx {
                        names.remove(co);
                        false
                    } else {
                        true
                    }
                });
            }
        }
        self.names.remove(&id);
        Ok(())
    }
    unsafe fn free_all_functions(&mut self) -> Result<()> {
        self.names.clear();
        if let Some(orc) = &mut self.orc {
            orc.staged.clear();
            orc.pending.clear();
            orc.committed.clear();
            orc.last_sizes.clear();
            orc.guard.dylib.clear();
            orc.trackers.clear();
        }
        self.module = Module::default();
        self.cur = None;
        Ok(())
    }
}

#[must_use]
pub struct EvmLlvmBuilder<'a> {
    backend: &'a mut EvmLlvmBackend,
    func: u32,
}

impl fmt::Debug for EvmLlvmBuilder<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("EvmLlvmBuilder")
    }
}

impl std::ops::Deref for EvmLlvmBuilder<'_> {
    type Target = EvmLlvmBackend;
    fn deref(&self) -> &EvmLlvmBackend {
        self.backend
    }
}

impl std::ops::DerefMut for EvmLlvmBuilder<'_> {
    fn deref_mut(&mut self) -> &mut EvmLlvmBackend {
        self.backend
    }
}

impl EvmLlvmBuilder<'_> {
    fn emit(&mut self, op: Op, ty: Option<Ty>) -> Val {
        let bb = self.backend.cur.expect("no insertion point");
        let f = &mut self.backend.module.funcs[bb.func as usize];
        let id = f.insts.len() as u32;
        f.insts.push(Inst { op, ty });
        f.blocks[bb.idx as usize].insts.push(id);
        Val { k: VK::Inst(id), func: bb.func, ty: ty.unwrap_or(Ty::Int(1)) }
    }
    fn bin(&mut self, op: BinOp, a: Val, b: Val) -> Val {
        self.emit(Op::Bin(op, a, b), Some(a.ty))
    }
    fn un(&mut self, op: UnOp, a: Val, ty: Ty) -> Val {
        self.emit(Op::Un(op, a), Some(ty))
    }
}

impl BackendTypes for EvmLlvmBuilder<'_> {
    type Type = Ty;
    type Value = Val;
    type StackSlot = Val;
    type BasicBlock = Bb;
    type Function = Fun;
}

impl TypeMethods for EvmLlvmBuilder<'_> {
    fn type_ptr(&self) -> Ty {
        self.backend.type_ptr()
    }
    fn type_ptr_sized_int(&self) -> Ty {
        self.backend.type_ptr_sized_int()
    }
    fn type_int(&self, bits: u32) -> Ty {
        self.backend.type_int(bits)
    }
    fn type_array(&self, ty: Ty, size: u32) -> Ty {
        self.backend.type_array(ty, size)
    }
    fn type_bit_width(&self, ty: Ty) -> u32 {
        self.backend.type_bit_width(ty)
    }
}

fn trunc_to(w: [u64; 4], bits: u32) -> [u64; 4] {
    if bits >= 256 {
        return w;
    }
    *(U256::from_limbs(w) & ((U256::from(1) << bits as usize) - U256::from(1))).as_limbs()
}

impl Builder for EvmLlvmBuilder<'_> {
    fn create_block(&mut self, _name: &str) -> Bb {
        let func = self.func;
        let f = &mut self.module.funcs[func as usize];
        let idx = f.blocks.len() as u32;
        f.blocks.push(Block::default());
        Bb { func, idx }
    }
    fn create_block_after(&mut self, after: Bb, _name: &str) -> Bb {
        let f = &mut self.module.funcs[after.func as usize];
        let idx = f.blocks.len() as u32;
        f.blocks.push(Block::default());
        Bb { func: after.func, idx }
    }
    fn switch_to_block(&mut self, block: Bb) {
        self.backend.cur = Some(block);
    }
    fn seal_block(&mut self, _block: Bb) {}
    fn seal_all_blocks(&mut self) {}
    fn set_current_block_cold(&mut self) {}
    fn current_block(&mut self) -> Option<Bb> {
        self.backend.cur
    }
    fn block_addr(&mut self, _block: Bb) -> Option<Val> {
        None
    }
    fn add_comment_to_current_inst(&mut self, _comment: &str) {}

    fn fn_param(&mut self, index: usize) -> Val {
        let ty = self.module.funcs[self.func as usize].params[index];
        Val { k: VK::Param(index as u32), func: self.func, ty }
    }
    fn num_fn_params(&self) -> usize {
        self.module.funcs[self.func as usize].params.len()
    }

    fn bool_const(&mut self, value: bool) -> Val {
        self.konst(Ty::Int(1), [value as u64, 0, 0, 0])
    }
    fn iconst(&mut self, ty: Ty, value: i64) -> Val {
        let Ty::Int(bits) = ty else { panic!("iconst of {ty:?}") };
        let e = if value < 0 { u64::MAX } else { 0 };
        self.konst(ty, trunc_to([value as u64, e, e, e], bits))
    }
    fn uconst(&mut self, ty: Ty, value: u64) -> Val {
        let Ty::Int(bits) = ty else { panic!("uconst of {ty:?}") };
        self.konst(ty, trunc_to([value, 0, 0, 0], bits))
    }
    fn iconst_256(&mut self, value: impl TryInto<U256>) -> Val {
        let v = value.try_into().ok().expect("invalid U256 value");
        self.konst(Ty::Int(256), *v.as_limbs())
    }
    fn str_const(&mut self, value: &str) -> Val {
        let id = self.module.strs.len() as u32;
        self.module.strs.push(value.into());
        Val { k: VK::Str(id), func: u32::MAX, ty: Ty::Ptr }
    }
    fn nullptr(&mut self) -> Val {
        self.konst(Ty::Ptr, [0; 4])
    }

    fn new_stack_slot_raw(&mut self, ty: Ty, _name: &str) -> Val {
        self.emit(Op::Alloca { ty }, Some(Ty::Ptr))
    }
    fn stack_load(&mut self, ty: Ty, slot: Val, name: &str) -> Val {
        self.load(ty, slot, name)
    }
    fn stack_store(&mut self, value: Val, slot: Val) {
        self.store(value, slot)
    }
    fn stack_addr(&mut self, _ty: Ty, slot: Val) -> Val {
        slot
    }

    fn load(&mut self, ty: Ty, ptr: Val, _name: &str) -> Val {
        self.emit(Op::Load { ptr, align: ty.natural_align() as u32 }, Some(ty))
    }
    fn load_aligned(&mut self, ty: Ty, ptr: Val, align: usize, _name: &str) -> Val {
        self.emit(Op::Load { ptr, align: align as u32 }, Some(ty))
    }
    fn store(&mut self, val: Val, ptr: Val) {
        self.emit(Op::Store { ptr, val, align: val.ty.natural_align() as u32 }, None);
    }
    fn store_aligned(&mut self, val: Val, ptr: Val, align: usize) {
        self.emit(Op::Store { ptr, val, align: align as u32 }, None);
    }

    fn nop(&mut self) {}
    fn ret(&mut self, values: &[Val]) {
        assert!(values.len() <= 1, "aggregate returns are not supported");
        self.emit(Op::Ret(values.first().copied()), None);
    }
    fn assume(&mut self, cond: Val) {
        self.emit(Op::Assume(cond), None);
    }

    fn icmp(&mut self, cond: IntCC, lhs: Val, rhs: Val) -> Val {
        let cc = match cond {
            IntCC::Equal => Cc::Eq,
            IntCC::NotEqual => Cc::Ne,
            IntCC::SignedLessThan => Cc::Slt,
            IntCC::SignedGreaterThanOrEqual => Cc::Sge,
            IntCC::SignedGreaterThan => Cc::Sgt,
            IntCC::SignedLessThanOrEqual => Cc::Sle,
            IntCC::UnsignedLessThan => Cc::Ult,
            IntCC::UnsignedGreaterThanOrEqual => Cc::Uge,
            IntCC::UnsignedGreaterThan => Cc::Ugt,
            IntCC::UnsignedLessThanOrEqual => Cc::Ule,
        };
        self.emit(Op::ICmp(cc, lhs, rhs), Some(Ty::Int(1)))
    }
    fn icmp_imm(&mut self, cond: IntCC, lhs: Val, rhs: i64) -> Val {
        let rhs = self.iconst(lhs.ty, rhs);
        self.icmp(cond, lhs, rhs)
    }
    fn is_null(&mut self, ptr: Val) -> Val {
        let z = self.nullptr();
        self.emit(Op::ICmp(Cc::Eq, ptr, z), Some(Ty::Int(1)))
    }
    fn is_not_null(&mut self, ptr: Val) -> Val {
        let z = self.nullptr();
        self.emit(Op::ICmp(Cc::Ne, ptr, z), Some(Ty::Int(1)))
    }

    fn br(&mut self, dest: Bb) {
        self.emit(Op::Br(dest), None);
    }
    fn brif(&mut self, cond: Val, then_block: Bb, else_block: Bb) {
        self.emit(Op::BrIf(cond, then_block, else_block), None);
    }
    fn switch(&mut self, index: Val, default: Bb, targets: &[(u64, Bb)], _cold: bool) {
        let Ty::Int(bits) = index.ty else { panic!("switch on {:?}", index.ty) };
        let targets = targets.iter().map(|(v, b)| (trunc_to([*v, 0, 0, 0], bits)[0], *b)).collect();
        self.emit(Op::Switch { v: index, default, targets }, None);
    }
    fn br_indirect(&mut self, _address: Val, _destinations: &[Bb]) {
        panic!("indirect branches are not supported");
    }
    fn phi(&mut self, ty: Ty, incoming: &[(Val, Bb)]) -> Val {
        self.emit(Op::Phi(incoming.to_vec()), Some(ty))
    }
    fn select(&mut self, cond: Val, then_value: Val, else_value: Val) -> Val {
        self.emit(Op::Select(cond, then_value, else_value), Some(then_value.ty))
    }

    fn iadd(&mut self, lhs: Val, rhs: Val) -> Val {
        self.bin(BinOp::Add, lhs, rhs)
    }
    fn isub(&mut self, lhs: Val, rhs: Val) -> Val {
        self.bin(BinOp::Sub, lhs, rhs)
    }
    fn imul(&mut self, lhs: Val, rhs: Val) -> Val {
        self.bin(BinOp::Mul, lhs, rhs)
    }
    fn udiv(&mut self, lhs: Val, rhs: Val) -> Val {
        self.bin(BinOp::UDiv, lhs, rhs)
    }
    fn sdiv(&mut self, lhs: Val, rhs: Val) -> Val {
        self.bin(BinOp::SDiv, lhs, rhs)
    }
    fn urem(&mut self, lhs: Val, rhs: Val) -> Val {
        self.bin(BinOp::URem, lhs, rhs)
    }
    fn srem(&mut self, lhs: Val, rhs: Val) -> Val {
        self.bin(BinOp::SRem, lhs, rhs)
    }
    fn iadd_imm(&mut self, lhs: Val, rhs: i64) -> Val {
        let rhs = self.iconst(lhs.ty, rhs);
        self.iadd(lhs, rhs)
    }
    fn isub_imm(&mut self, lhs: Val, rhs: i64) -> Val {
        let rhs = self.iconst(lhs.ty, rhs);
        self.isub(lhs, rhs)
    }
    fn imul_imm(&mut self, lhs: Val, rhs: i64) -> Val {
        let rhs = self.iconst(lhs.ty, rhs);
        self.imul(lhs, rhs)
    }
    fn uadd_overflow(&mut self, lhs: Val, rhs: Val) -> (Val, Val) {
        let r = self.iadd(lhs, rhs);
        let o = self.icmp(IntCC::UnsignedLessThan, r, rhs);
        (r, o)
    }
    fn usub_overflow(&mut self, lhs: Val, rhs: Val) -> (Val, Val) {
        let r = self.isub(lhs, rhs);
        let o = self.icmp(IntCC::UnsignedLessThan, lhs, rhs);
        (r, o)
    }
    fn uadd_sat(&mut self, lhs: Val, rhs: Val) -> Val {
        self.bin(BinOp::UAddSat, lhs, rhs)
    }
    fn umax(&mut self, lhs: Val, rhs: Val) -> Val {
        self.bin(BinOp::UMax, lhs, rhs)
    }
    fn umin(&mut self, lhs: Val, rhs: Val) -> Val {
        self.bin(BinOp::UMin, lhs, rhs)
    }
    fn bswap(&mut self, value: Val) -> Val {
        self.un(UnOp::BSwap, value, value.ty)
    }
    fn bitor(&mut self, lhs: Val, rhs: Val) -> Val {
        self.bin(BinOp::Or, lhs, rhs)
    }
    fn bitand(&mut self, lhs: Val, rhs: Val) -> Val {
        self.bin(BinOp::And, lhs, rhs)
    }
    fn bitxor(&mut self, lhs: Val, rhs: Val) -> Val {
        self.bin(BinOp::Xor, lhs, rhs)
    }
    fn bitnot(&mut self, value: Val) -> Val {
        self.un(UnOp::Not, value, value.ty)
    }
    fn clz(&mut self, value: Val) -> Val {
        self.un(UnOp::Clz, value, value.ty)
    }
    fn bitor_imm(&mut self, lhs: Val, rhs: i64) -> Val {
        let rhs = self.iconst(lhs.ty, rhs);
        self.bitor(lhs, rhs)
    }
    fn bitand_imm(&mut self, lhs: Val, rhs: i64) -> Val {
        let rhs = self.iconst(lhs.ty, rhs);
        self.bitand(lhs, rhs)
    }
    fn bitxor_imm(&mut self, lhs: Val, rhs: i64) -> Val {
        let rhs = self.iconst(lhs.ty, rhs);
        self.bitxor(lhs, rhs)
    }
    fn ishl(&mut self, lhs: Val, rhs: Val) -> Val {
        self.bin(BinOp::Shl, lhs, rhs)
    }
    fn ushr(&mut self, lhs: Val, rhs: Val) -> Val {
        self.bin(BinOp::LShr, lhs, rhs)
    }
    fn sshr(&mut self, lhs: Val, rhs: Val) -> Val {
        self.bin(BinOp::AShr, lhs, rhs)
    }
    // LLVM's builder returns the operand itself when the width does not change.
    fn zext(&mut self, ty: Ty, value: Val) -> Val {
        if ty == value.ty { value } else { self.un(UnOp::ZExt, value, ty) }
    }
    fn sext(&mut self, ty: Ty, value: Val) -> Val {
        if ty == value.ty { value } else { self.un(UnOp::SExt, value, ty) }
    }
    fn ireduce(&mut self, to: Ty, value: Val) -> Val {
        if to == value.ty { value } else { self.un(UnOp::Trunc, value, to) }
    }
    fn inttoptr(&mut self, value: Val, ty: Ty) -> Val {
        assert_eq!(ty, Ty::Ptr);
        self.un(UnOp::IntToPtr, value, ty)
    }
    fn gep(&mut self, ty: Ty, ptr: Val, indexes: &[Val], _name: &str) -> Val {
        self.emit(Op::Gep { elem: ty, ptr, idx: indexes.to_vec() }, Some(Ty::Ptr))
    }
    fn tail_call(&mut self, function: Fun, args: &[Val], _kind: TailCallKind) -> Option<Val> {
        let ret = self.module.funcs[function.0 as usize].ret;
        let v = self.emit(Op::Call { f: function, args: args.to_vec() }, ret);
        ret.map(|_| v)
    }
    fn is_compile_time_known(&mut self, value: Val) -> Option<Val> {
        let known = matches!(value.k, VK::Const(_));
        Some(self.bool_const(known))
    }
    fn memcpy(&mut self, dst: Val, src: Val, len: Val) {
        self.emit(Op::MemCpy { dst, src, len }, None);
    }
    fn unreachable(&mut self) {
        self.emit(Op::Unreachable, None);
    }

    fn get_or_build_function(
        &mut self,
        name: &str,
        params: &[Ty],
        ret: Option<Ty>,
        linkage: Linkage,
        build: impl FnOnce(&mut Self),
    ) -> Fun {
        if let Some(f) = self.get_function(name) {
            return f;
        }
        let before = self.backend.cur;
        let func = self.new_fn(name, ret, params, linkage);
        self.module.funcs[func as usize].blocks.push(Block::default());
        let prev = std::mem::replace(&mut self.func, func);
        self.backend.cur = Some(Bb { func, idx: 0 });
        build(self);
        if before.is_some() {
            self.backend.cur = before;
        }
        self.func = prev;
        Fun(func)
    }
    fn get_function(&mut self, name: &str) -> Option<Fun> {
        self.module.by_name.get(name).map(|i| Fun(*i))
    }
    fn get_printf_function(&mut self) -> Fun {
        if let Some(f) = self.get_function("printf") {
            return f;
        }
        Fun(self.new_fn("printf", None, &[Ty::Ptr], Linkage::Import))
    }
    fn add_function(
        &mut self,
        name: &str,
        params: &[Ty],
        ret: Option<Ty>,
        address: Option<usize>,
        linkage: Linkage,
        _call_conv: CallConv,
    ) -> Fun {
        let f = self.new_fn(name, ret, params, linkage);
        if let Some(address) = address
            && let Some(orc) = &mut self.orc
        {
            orc.pending.push((CString::new(name).unwrap(), address));
        }
        Fun(f)
    }
    fn add_function_attribute(
        &mut self,
        function: Option<Fun>,
        attribute: Attribute,
        loc: FunctionAttributeLocation,
    ) {
        let idx = function.map_or(self.func, |f| f.0) as usize;
        let f = &mut self.module.funcs[idx];
        match (loc, attribute) {
            (FunctionAttributeLocation::Function, Attribute::NoReturn) => f.no_return = true,
            (FunctionAttributeLocation::Param(i), a) => {
                let p = &mut f.pattrs[i as usize];
                match a {
                    Attribute::Dereferenceable(n) => p.deref = n,
                    Attribute::Align(n) => p.align = n,
                    Attribute::ReadOnly => p.read_only = true,
                    Attribute::ReadNone => p.read_none = true,
                    Attribute::WriteOnly => p.write_only = true,
                    Attribute::Initializes(n) => p.initializes = n,
                    Attribute::DeadOnReturn => p.dead_on_return = true,
                    _ => {}
                }
            }
            _ => {}
        }
    }
}
