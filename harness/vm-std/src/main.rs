//! Monitors of the standard-library wrappers.

mod atomic;
mod builder;
mod derived;
mod fault;
mod files;
mod locks;
mod misc;
mod pathlib;
mod prints;
mod removal;
mod tree;

fn child(args: &[String]) -> i32 {
    vm_core::install_panic_hook();
    let r = vm_core::guard(|| match args[0].as_str() {
        "write_atomic" => atomic::child(args).map(|_| fault::OK),
        "hashes" => prints::child(args),
        "file" => files::child_file(args),
        "cachedir" => files::child_cachedir(args),
        "removal" => removal::child(args),
        "deep" => removal::child_deep(args),
        o if o.starts_with("lock") => locks::child(args),
        o => anyhow::bail!("unknown operation {o}"),
    });
    match r {
        Ok(Ok(c)) => c,
        Ok(Err(_)) => fault::ERR,
        Err(_) => fault::PANICKED,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(cmd) = args.first().cloned() else {
        eprintln!("usage: vm-std PROPERTY");
        std::process::exit(2);
    };
    if cmd == "child" {
        std::process::exit(child(&args[1..]));
    }
    let ctx = vm_core::Ctx::from_env(&cmd, args[1..].to_vec());
    let code = match cmd.as_str() {
        "C20" => atomic::c20(&ctx),
        "C21" => atomic::c21(&ctx),
        "C22" => locks::c22(&ctx),
        "C23" => files::c23(&ctx),
        "C24" => removal::c24(&ctx),
        "C25" => files::c25(&ctx),
        "C26" => files::c26(&ctx),
        "C27" => files::c27(&ctx),
        "C28" => pathlib::c28(&ctx),
        "C29" => pathlib::c29(&ctx),
        "C31" => pathlib::c31(&ctx),
        "C32" => prints::c32(&ctx),
        "C33" => builder::c33(&ctx, "sip"),
        "C34" => prints::c34(&ctx),
        "C35" => prints::c35(&ctx),
        "C36" => prints::c36(&ctx),
        "C37" => misc::c37(&ctx),
        "C45" => derived::c45(&ctx),
        "C38" => misc::c38(&ctx),
        _ => {
            eprintln!("unknown property {cmd}");
            2
        }
    };
    std::process::exit(code);
}
