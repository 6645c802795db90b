//! Monitors of projects: compilation over changing buffers and disks, watching, the compute graph, the lock file.

mod cli;
mod lock;
mod settle;
mod sys;
mod watch;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(cmd) = args.first().cloned() else {
        eprintln!("usage: vm-project PROPERTY");
        std::process::exit(2);
    };
    if cmd == "lock-child" {
        std::process::exit(lock::child(&args[1..]));
    }
    let ctx = vm_core::Ctx::from_env(&cmd, args[1..].to_vec());
    let code = match cmd.as_str() {
        "C58" => settle::c58(&ctx),
        "C70" => cli::c70(&ctx),
        "C69" => lock::c69(&ctx),
        "C59" => watch::c59(&ctx),
        _ => {
            eprintln!("unknown property {cmd}");
            2
        }
    };
    std::process::exit(code);
}
