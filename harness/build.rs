fn main() {
    // Export our `getrandom` so that dlsym(RTLD_DEFAULT, "getrandom") finds it.
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
