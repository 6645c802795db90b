//! Monitors of the localization library and of the extraction tool.

mod catalogue;
mod extract;
mod interpolate;
mod locale;
mod switch;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(cmd) = args.first().cloned() else {
        eprintln!("usage: vm-l10n PROPERTY");
        std::process::exit(2);
    };
    if cmd == "child" {
        vm_core::install_panic_hook();
        std::process::exit(match args[1].as_str() {
            "locale" => locale::child(),
            _ => 2,
        });
    }
    let ctx = vm_core::Ctx::from_env(&cmd, args[1..].to_vec());
    let code = match cmd.as_str() {
        "C40" => interpolate::c40(&ctx),
        "C41" => locale::c41(&ctx),
        "C42" => catalogue::c42(&ctx),
        "C43" => extract::c43(&ctx),
        "C44" => switch::c44(&ctx),
        _ => {
            eprintln!("unknown property {cmd}");
            2
        }
    };
    std::process::exit(code);
}

/// An independent reading of a catalogue: section, language, raw value.
pub fn read(text: &str) -> Vec<(String, String, String)> {
    let mut out = vec![];
    let mut key = String::new();
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        if l.starts_with('[') && l.ends_with(']') {
            key = l[1..l.len() - 1].to_owned();
        } else if let Some((a, b)) = l.split_once('=') {
            out.push((key.clone(), a.trim().to_owned(), b.trim().to_owned()));
        }
    }
    out
}

pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
