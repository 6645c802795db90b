//! Monitors of the virtual file system.

mod disk;
mod history;
mod mapping;
mod race;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(cmd) = args.first().cloned() else {
        eprintln!("usage: vm-vfs PROPERTY");
        std::process::exit(2);
    };
    let ctx = vm_core::Ctx::from_env(&cmd, args[1..].to_vec());
    let code = match cmd.as_str() {
        "C50" => history::c50(&ctx),
        "C51" => history::c51(&ctx),
        "C52" => race::c52(&ctx),
        "C53" => history::c53(&ctx),
        "C54" => mapping::c54(&ctx),
        _ => {
            eprintln!("unknown property {cmd}");
            2
        }
    };
    std::process::exit(code);
}
