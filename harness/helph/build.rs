fn main() {
    revmc_build::emit();
    println!("cargo::rustc-link-arg-bins=-Wl,--export-dynamic");
}
