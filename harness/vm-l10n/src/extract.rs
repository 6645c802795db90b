//! C43: the extraction tool, as a process over generated source trees.

use std::collections::BTreeMap;
use std::path::Path;
use std::process::Command;
use vm_core::{json, parallel, Ctx, Rng, Scratch};

/// Source text of a string without its quotes: escapes that Rust and JSON share.
fn string(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 12) {
        return "long \\\\ ".repeat(r.range(50, 3000));
    }
    for _ in 0..r.below(10) {
        s += &match r.below(11) {
            6 => r.one(&["\\\\\\\\", "\\\\\\\"", "\\t", "\\r", " ", "  "]).into(),
            7 => r.one(&[" # ", "#", " = ", "=", "[k]", "]", "{", "}", "\u{a0}", ";", "://", "*/", "en = "]).into(),
            0 => "\\\"".into(),
            1 => "\\\\".into(),
            2 => "\\n".into(),
            3 => r.one(&["é", "中文", "😀", "{x}", "t!", "//", "'", "`", "(", ")", ","]).to_string(),
            4 => "tinymist_l10n::t!(\\\"no\\\", \\\"no\\\")".into(),
            5 => "l10nMsg(\\\"no\\\")".into(),
            _ => r.one(&["a", "b ", "total", "l", "t", "."]).to_string(),
        };
    }
    s
}

fn space(r: &mut Rng) -> &'static str {
    r.one(&["", "", " ", "\n        ", "\t", "\r\n  "])
}

fn call(r: &mut Rng, rs: bool, key: &str, value: &str) -> String {
    let (a, b, c, d, e) = (space(r), space(r), space(r), space(r), space(r));
    if rs {
        let m = r.one(&["t!", "t!", "bail!"]);
        let rest = r.one(&[")", ", x = y.into())", ",\n)", ", a = tinymist_l10n::t!(k, m))"]);
        format!("tinymist_l10n::{m}{a}({b}\"{key}\"{c},{d}\"{value}\"{e}{rest}")
    } else {
        format!("l10nMsg{a}({b}\"{key}\"{c}{e}{}", r.one(&[")", ", 1)", ",\n)"]))
    }
}

fn noise(r: &mut Rng, rs: bool) -> String {
    match r.below(9) {
        0 => "let total = list.len(); // t!(\"x\", \"y\")\n".into(),
        1 if rs => "tinymist_l10n::set_locale(locale);".into(),
        2 if rs => "tinymist_l10n::t!(KEY, \"message\")".into(),
        3 if rs => "tinymist_l10n::t!(\"key only\")".into(),
        4 if rs => "tinymist_l10n::bailout!(\"k\", \"v\"); tinymist_l10n::DebugL10n;".into(),
        1 => "import { l10nMsg } from \"../l10n\";\n".into(),
        2 => "l10nMsg(key)".into(),
        3 => "l10nMsg;".into(),
        4 => "function l10nMsg(s: string) { return s; }".into(),
        5 => "é = 'ü' + \"中文\";\n".into(),
        6 => "tinymist_l10n l10n l10nMs tt!".into(),
        7 => "\n\n".into(),
        _ => r.text(8).replace(['"', '(', '\\'], "_"),
    }
}

struct Tree {
    /// What the catalogue must contain afterwards: key to English text, both as written there.
    want: BTreeMap<String, String>,
    calls: usize,
    files: usize,
}

fn grow(r: &mut Rng, root: &Path, rs: bool) -> Tree {
    let mut t = Tree { want: BTreeMap::new(), calls: 0, files: 0 };
    let (ext, other) = if rs { ("rs", "ts") } else { ("ts", "rs") };
    let many = r.chance(1, 60);
    for i in 0..if many { r.range(200, 600) } else { r.range(1, 14) } {
        let deep = "d/".repeat(*r.pick(&[20, 60, 200]));
        let dir = root.join(if r.chance(1, 200) { &deep } else { r.one(&["", "a", "a/b", "target", "é x", ".hidden", "node_modules/p/src", "a.rs", "b.ts/c", "a/b/c/d/e/f/g/h/i/j/k/l/m", "x y\nz"]) });
        std::fs::create_dir_all(&dir).unwrap();
        let counts = r.chance(3, 4);
        let name = if counts { format!("{}{i}.{ext}", r.one(&["m", "x.test", ".h"])) } else { format!("m{i}{}", r.one(&[".txt", "", ".rsx", ".tsx", ".bak"])) };
        let name = if !counts && r.chance(1, 3) { format!("m{i}.{other}") } else { name };
        let mut s = String::new();
        let long = !many && r.chance(1, 150);
        for n in 0..if long { *r.pick(&[2_000, 2_000, 12_000]) } else { r.below(8) } {
            if long && n == 1_000 {
                s += &"// far apart\n".repeat(r.range(10_000, 200_000));
            }
            for _ in 0..r.below(3) {
                s += &noise(r, rs);
                s += r.one(&["\n", " ", ";", ""]);
            }
            // Keys are their own: one English text each.
            let key = if rs { format!("{}.k{}", r.one(&["tinymist", "a-b.c"]), if long { n } else { r.below(60) }) } else { string(r) };
            let (k, v) = if rs {
                let v = t.want.get(&key).cloned().unwrap_or_else(|| format!("\"{}\"", string(r)));
                (key.clone(), v)
            } else {
                (format!("\"{key}\""), format!("\"{key}\""))
            };
            // Something that is no identifier in front.
            s += r.one(&[" ", "\n", "(", "=", "{", "é "]);
            s += &call(r, rs, &key, &v[1..v.len() - 1]);
            s += r.one(&["", ";\n", " + ", "."]);
            if counts {
                t.want.insert(k, v);
                t.calls += 1;
            }
        }
        if r.chance(1, 3) {
            s += r.one(&["tinymist_l10n::t!(\"open", "tinymist_l10n::t!(", "l10nMsg(\"", "l10nMsg(", "tinymist_l10n::", "l10nMsg", "t", "l"]);
        }
        t.files += usize::from(counts);
        std::fs::write(dir.join(name), s).unwrap();
    }
    if r.chance(1, 3) {
        odd_entries(r, root, ext, &mut t);
    }
    if r.chance(1, 3) {
        // Not text: skipped.
        std::fs::write(root.join(format!("binary.{ext}")), b"tinymist_l10n::t!(\"bin\", \"\xff\") l10nMsg(\"bin\") \xfe").unwrap();
        std::fs::create_dir_all(root.join(format!("dir.{ext}"))).unwrap();
    }
    t
}

/// Names that are no text, links (not followed), empty and unreadable things among the sources.
fn odd_entries(r: &mut Rng, root: &Path, ext: &str, t: &mut Tree) {
    use std::os::unix::ffi::OsStrExt;
    let odd = |name: &[u8]| root.join(std::ffi::OsStr::from_bytes(name));
    for i in 0..r.range(1, 5) {
        let dir = odd(format!("odd{i}").as_bytes()).with_extension(std::ffi::OsStr::from_bytes(b"\xff"));
        std::fs::create_dir_all(&dir).unwrap();
        let (key, call) = if ext == "rs" { (format!("odd.k{i}"), format!("tinymist_l10n::t!(\"odd.k{i}\", \"v{i}\")")) } else { (format!("\"v{i}\""), format!("l10nMsg(\"v{i}\")")) };
        let name = [format!("f{i}").as_bytes(), r.one(&["\u{fe}", " ", "."]).as_bytes(), b"\xfe.", ext.as_bytes()].concat();
        std::fs::write(dir.join(std::ffi::OsStr::from_bytes(&name)), call).unwrap();
        t.want.insert(key, format!("\"v{i}\""));
        t.calls += 1;
        t.files += 1;
    }
    let outside = root.with_extension("outside");
    std::fs::create_dir_all(&outside).unwrap();
    std::fs::write(outside.join(format!("f.{ext}")), "tinymist_l10n::t!(\"outside\", \"v\"); l10nMsg(\"outside\")").unwrap();
    let _ = std::os::unix::fs::symlink(&outside, root.join("link"));
    let _ = std::os::unix::fs::symlink(outside.join(format!("f.{ext}")), root.join(format!("link.{ext}")));
    let _ = std::os::unix::fs::symlink("nowhere", root.join(format!("dangling.{ext}")));
    let _ = std::os::unix::fs::symlink("..", root.join("up"));
    std::fs::write(root.join(format!("empty.{ext}")), "").unwrap();
    std::fs::write(root.join(format!("upper.{}", ext.to_uppercase())), "tinymist_l10n::t!(\"upper\", \"v\"); l10nMsg(\"upper\")").unwrap();
    std::fs::write(root.join(format!(".{ext}")), "tinymist_l10n::t!(\"hidden\", \"v\"); l10nMsg(\"hidden\")").unwrap();
}

fn tool(root: &Path, rs: bool, out: &Path, threads: &str) -> Result<Option<i32>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?.with_file_name("vm-l10n-tool");
    let o = Command::new(exe)
        .args(["--kind", if rs { "rs" } else { "ts" }, "--dir"])
        .arg(root)
        .arg("--output")
        .arg(out)
        .env("RAYON_NUM_THREADS", threads)
        .output()
        .map_err(|e| e.to_string())?;
    Ok(o.status.code())
}

pub fn c43(ctx: &Ctx) -> i32 {
    parallel(ctx, ctx.n(200, 4000), 8, |k| {
        let mut r = ctx.rng(k as u64);
        let s = Scratch::new("extract");
        let root = s.path().join("src");
        std::fs::create_dir_all(&root).unwrap();
        let rs = r.chance(2, 3);
        let t = grow(&mut r, &root, rs);
        let out = s.path().join("out.toml");
        // Translations that exist: of used keys (kept), of unused ones (dropped).
        let mut langs: BTreeMap<(String, String), String> = BTreeMap::new();
        if r.chance(3, 4) {
            let mut text = String::from("# mine\n");
            let unused = ["gone.key", "\"gone\"", "zz"].map(str::to_owned);
            for k in t.want.keys().chain(&unused) {
                if r.chance(1, 2) {
                    text += &format!("\n[{k}]\nen = \"old\"\n");
                    for l in ["zh", "fr"] {
                        if r.chance(1, 2) {
                            let v = crate::catalogue::value(&mut r);
                            text += &format!("{l} = {v}\n");
                            langs.insert((k.clone(), l.into()), v);
                        }
                    }
                }
            }
            std::fs::write(&out, text).unwrap();
        }
        let mut want: Vec<(String, String, String)> = vec![];
        for (k, v) in &t.want {
            want.push((k.clone(), "en".into(), v.clone()));
            want.extend(langs.range((k.clone(), String::new())..).take_while(|((a, _), _)| a == k).map(|((a, l), v)| (a.clone(), l.clone(), v.clone())));
        }
        ctx.eval(vm_core::h64(&(rs, &t.want)), t.calls > 0);
        ctx.count("files", t.files as u64);
        ctx.count("calls", t.calls as u64);
        let case = || json!({"kind": if rs { "rs" } else { "ts" }, "case": k, "files": t.files, "calls": t.calls});
        let mut before = std::fs::read(&out).ok();
        let mut texts = vec![];
        for threads in ["8", "1", "3"] {
            if threads == "3" {
                // From the start again.
                match before.take() {
                    Some(b) => std::fs::write(&out, b).unwrap(),
                    None => std::fs::remove_file(&out).unwrap_or(()),
                }
            }
            match tool(&root, rs, &out, threads) {
                Ok(Some(0)) => {}
                Ok(c) => {
                    ctx.violate("extract:status", json!({"case": case(), "code": c}));
                    return;
                }
                Err(e) => {
                    ctx.inconclusive(e);
                    return;
                }
            }
            texts.push(std::fs::read_to_string(&out).unwrap_or_default());
        }
        // By section, English first, then by language.
        let got = crate::read(&texts[0]);
        let mut want2 = want.clone();
        want2.sort_by(|a, b| (&a.0, a.1 != "en", &a.1).cmp(&(&b.0, b.1 != "en", &b.1)));
        if got != want2 {
            let at = got.iter().zip(&want2).position(|(a, b)| a != b).unwrap_or(got.len().min(want2.len()));
            ctx.violate("extract", json!({"case": case(), "entry": at, "got": got.get(at), "expected": want2.get(at)}));
        }
        if texts[0] != texts[1] {
            ctx.violate("extract:idempotent", case());
        }
        if texts[0] != texts[2] {
            ctx.violate("extract:deterministic", case());
        }
        ctx.sample(case);
    });
    ctx.require("calls", 1000);
    ctx.require("files", 300);
    ctx.finish(
        "exploration",
        "one generated source tree (Rust or TypeScript) with calls in many spellings, decoys and foreign files, extracted three times with different thread counts; distinct by the expected catalogue",
        &["keys with one English text each", "string escapes that Rust and JSON share"],
    )
}
