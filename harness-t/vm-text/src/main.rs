//! Monitors of positions, edits, and urls.

mod editor;
mod exports;
mod folder;
mod format;
mod model;
mod positions;
mod urls;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(cmd) = args.first().cloned() else {
        eprintln!("usage: vm-text PROPERTY");
        std::process::exit(2);
    };
    let ctx = vm_core::Ctx::from_env(&cmd, args[1..].to_vec());
    let code = match cmd.as_str() {
        "C60" => positions::c60(&ctx),
        "C61" => format::c61(&ctx),
        "C62" => urls::c62(&ctx),
        "C68" => editor::c68(&ctx),
        "C67" => exports::c67(&ctx),
        "C66" => folder::c66(&ctx),
        _ => {
            eprintln!("unknown property {cmd}");
            2
        }
    };
    std::process::exit(code);
}
