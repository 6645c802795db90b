//! The fingerprint builders under the two-level hashing strategy.

#[path = "../../vm-std/src/builder.rs"]
mod builder;

fn main() {
    let ctx = vm_core::Ctx::from_env("C33", vec![]);
    std::process::exit(builder::c33(&ctx, "bi"));
}
