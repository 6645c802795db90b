//! Monitors of packages: where they are found, how they are downloaded, and packs.

#[allow(dead_code)]
#[path = "../../../harness/vm-std/src/fault.rs"]
mod fault;
mod packs;
mod storage;
mod web;
mod whole;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(cmd) = args.first().cloned() else {
        eprintln!("usage: vm-pkg PROPERTY");
        std::process::exit(2);
    };
    if cmd == "child" {
        vm_core::install_panic_hook();
        std::process::exit(whole::child(&args[2..]));
    }
    let ctx = vm_core::Ctx::from_env(&cmd, args[1..].to_vec());
    web::start();
    let code = match cmd.as_str() {
        "C55" => storage::c55(&ctx),
        "C56" => whole::c56(&ctx),
        "C57" => packs::c57(&ctx),
        _ => {
            eprintln!("unknown property {cmd}");
            2
        }
    };
    std::process::exit(code);
}
