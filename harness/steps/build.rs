fn main() {
    // the guarded hooks of the renderer source included below
    println!("cargo::rustc-cfg=thermal_verif");
    println!("cargo::rerun-if-changed=build.rs");
}
