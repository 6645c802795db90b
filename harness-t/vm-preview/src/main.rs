//! Monitors of the preview: browsers, an editor and compilations around the real actors.

mod idle;
mod sim;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(cmd) = args.first().cloned() else {
        eprintln!("usage: vm-preview PROPERTY");
        std::process::exit(2);
    };
    let ctx = vm_core::Ctx::from_env(&cmd, args[1..].to_vec());
    let code = match cmd.as_str() {
        "C63" => sim::c63(&ctx),
        "C64" => sim::c64(&ctx),
        "C65" => idle::c65(&ctx),
        _ => {
            eprintln!("unknown property {cmd}");
            2
        }
    };
    std::process::exit(code);
}
