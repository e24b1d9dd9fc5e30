fn main() {
    revmc_build::emit();
    println!("cargo::rustc-link-arg-bins=-Wl,--export-dynamic-symbol,revmc_fake_llvm_aot_entry");
}
