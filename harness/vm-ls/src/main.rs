//! Monitors of the language server core.

mod calls;
mod case;
mod checks;
mod child;
mod framing;
mod queue;
mod scale;
mod server;
mod session;
mod wire;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(cmd) = args.first().cloned() else {
        eprintln!("usage: vm-ls PROPERTY");
        std::process::exit(2);
    };
    if cmd == "child-huge" {
        std::process::exit(framing::child_huge(&args[1..]));
    }
    if cmd == "child-server" {
        std::process::exit(child::child_server(&args[1..]));
    }
    let ctx = std::sync::Arc::new(vm_core::Ctx::from_env(&cmd, args[1..].to_vec()));
    let code = match cmd.as_str() {
        "C01" => framing::c01(&ctx),
        "C02" => framing::c02(&ctx),
        "C09" => child::c09(&ctx),
        "C10" => child::c10(&ctx),
        "C13" => checks::c13(&ctx),
        "C06" => calls::c06(&ctx),
        "C08" => calls::c08(&ctx),
        "C15" => queue::c15(&ctx),
        "C14" => calls::c14(&ctx),
        _ => match checks::plan(&cmd) {
            Some(p) => checks::sessions(&ctx, p),
            None => {
                eprintln!("unknown property {cmd}");
                2
            }
        },
    };
    // Detached threads of the code under test may still run.
    std::process::exit(code);
}
