//! Compiling a case with the repository's compiler.
use crate::case::*;
use revm_primitives::hex;
use revmc_backend::OptimizationLevel;
use revmc_codegen::EvmCompiler;
use revmc_context::EvmCompilerFn;
use revmc_llvm::EvmLlvmBackend;

pub type Compiler = EvmCompiler<EvmLlvmBackend>;

pub fn new_compiler(aot: bool) -> Compiler {
    EvmCompiler::new(EvmLlvmBackend::new(aot).expect("backend"))
}

pub fn configure(k: &mut Compiler, c: &Case) {
    k.set_opt_level(match c.cfg.opt {
        0 => OptimizationLevel::None,
        1 => OptimizationLevel::Less,
        2 => OptimizationLevel::Default,
        _ => OptimizationLevel::Aggressive,
    });
    k.set_dedup(c.cfg.dedup);
    k.set_dse(c.cfg.dse);
    k.single_error(c.cfg.single_error);
    k.debug_assertions(c.cfg.debug_assert);
    k.inspect_stack(c.cfg.inspect);
    if c.cfg.budget >= 0 {
        k.set_compiler_gas_limit(c.cfg.budget as u64);
    }
    if c.custom_gp {
        k.set_gas_params(c.gas_params());
    }
}

/// Compiles in a fresh compiler, which must outlive the function.
pub fn compile(c: &Case) -> Result<(Compiler, EvmCompilerFn), String> {
    let mut k = new_compiler(false);
    configure(&mut k, c);
    let code = hex::decode(&c.code).unwrap();
    let f = unsafe { k.jit("f", &code[..], c.spec()) }.map_err(|e| format!("{e:?}"))?;
    Ok((k, f))
}
