//! C70: command lines name the projects, inputs and tasks they say.

use std::collections::BTreeMap;
use std::num::NonZeroUsize;
use std::path::{Path, PathBuf};

use clap::Parser;
use serde_json::json;
use tinymist_project::*;
use tinymist_std::path::PathClean;
use tinymist_world::args::{CompileOnceArgs, Feature};
use typst::foundations::Value;
use typst::World;
use vm_core::{h64, Ctx, Rng, Scratch};

fn cased(rng: &mut Rng, s: &str) -> String {
    match rng.below(3) {
        0 => s.to_uppercase(),
        1 => {
            let mut c = s.chars();
            c.next().map(|f| f.to_uppercase().chain(c).collect()).unwrap_or_default()
        }
        _ => s.into(),
    }
}

/// One page range as text, and what it is; None when it is none.
fn range(rng: &mut Rng) -> (String, Option<Pages>) {
    let (a, b) = (rng.range(1, 30), rng.range(1, 30));
    let n = NonZeroUsize::new;
    let sp = |rng: &mut Rng| [" ", "", ""][rng.below(3)];
    match rng.below(14) {
        0 => ("0".into(), None),
        1 => ("-".into(), None),
        2 => (String::new(), None),
        3 => (format!("{a}-{b}-{a}"), None),
        4 => ("x".into(), None),
        5 => (format!("0-{b}"), None),
        6 => ("99999999999999999999999".into(), None),
        7..=8 => (format!("{}{a}{}", sp(rng), sp(rng)), Some(Pages(n(a)..=n(a)))),
        9 => (format!("{a}{}-{}", sp(rng), sp(rng)), Some(Pages(n(a)..=None))),
        10 => (format!("{}-{}{b}", sp(rng), sp(rng)), Some(Pages(None..=n(b)))),
        _ => (format!("{a}{}-{}{b}", sp(rng), sp(rng)), (a <= b).then(|| Pages(n(a)..=n(b)))),
    }
}

fn rel(cwd: &Path, p: &str) -> String {
    let p = Path::new(p);
    if p.is_relative() {
        return p.display().to_string();
    }
    // Both are clean and absolute.
    let (p, c): (Vec<_>, Vec<_>) = (p.components().collect(), cwd.components().collect());
    let same = p.iter().zip(&c).take_while(|(a, b)| a == b).count();
    let parts: Vec<String> = c[same..].iter().map(|_| "..".to_string()).chain(p[same..].iter().map(|c| c.as_os_str().to_string_lossy().into_owned())).collect();
    if parts.is_empty() {
        return ".".into();
    }
    parts.join("/")
}

const INPUTS: [&str; 9] = ["main.typ", "sub/a b.typ", "é.typ", "c:d.typ", "../up.typ", "a.typ.typ", "x/../y.typ", "sub/deep/z", "=.typ"];

fn tasks(ctx: &Ctx, i: usize, cwd: &Path) {
    let mut rng = ctx.rng(i as u64);
    let rng = &mut rng;
    let abs = |rng: &mut Rng, p: &str| match rng.below(4) {
        0 => cwd.join(p).clean().display().to_string(),
        1 => Path::new("/elsewhere").join(p).clean().display().to_string(),
        _ => p.to_string(),
    };
    let main = { let p = rng.one(&INPUTS); abs(rng, p) };
    let mut pairs: Vec<Vec<String>> = vec![];
    let mut flag = |rng: &mut Rng, k: &str, v: String| match rng.chance(1, 2) && !v.is_empty() {
        true => pairs.push(vec![format!("{k}={v}")]),
        false => pairs.push(vec![k.into(), v]),
    };
    let root = rng.chance(1, 2).then(|| { let p = rng.one(&[".", "sub", "r t"]); abs(rng, p) });
    if let Some(r) = &root {
        flag(rng, "--root", r.clone());
    }
    let name = rng.chance(1, 3).then(|| format!("name {}", rng.below(9)));
    if let Some(n) = &name {
        flag(rng, "--name", n.clone());
    }
    let fonts: Vec<String> = (0..rng.below(3)).map(|k| abs(rng, &format!("fonts{k}"))).collect();
    for f in &fonts {
        flag(rng, "--font-path", f.clone());
    }
    let pkg = rng.chance(1, 3).then(|| abs(rng, "pkg"));
    if let Some(p) = &pkg {
        flag(rng, "--package-path", p.clone());
    }
    let pkg_cache = rng.chance(1, 3).then(|| abs(rng, "pkg cache"));
    if let Some(p) = &pkg_cache {
        flag(rng, "--package-cache-path", p.clone());
    }
    let task = rng.chance(1, 3).then(|| format!("task {}", rng.below(9)));
    if let Some(t) = &task {
        flag(rng, "--task", t.clone());
    }
    let when = rng.chance(1, 2).then(|| [("never", TaskWhen::Never), ("onSave", TaskWhen::OnSave), ("onType", TaskWhen::OnType), ("onDocumentHasTitle", TaskWhen::OnDocumentHasTitle)][rng.below(4)]);
    if let Some((w, _)) = when {
        flag(rng, "--when", w.into());
    }
    const FORMATS: [&str; 4] = ["pdf", "png", "svg", "html"];
    let format = rng.chance(1, 3).then(|| FORMATS[rng.below(4)]);
    if let Some(f) = format {
        let long = if rng.chance(1, 2) { "--format" } else { "-f" };
        if long == "-f" {
            pairs.push(vec!["-f".into(), f.into()]);
        } else {
            pairs.push(vec![format!("--format={f}")]);
        }
    }
    let mut bad_pages = false;
    let ranges = rng.chance(1, 2).then(|| {
        let rs: Vec<_> = (0..rng.range(1, 3)).map(|_| range(rng)).collect();
        bad_pages = rs.iter().any(|r| r.1.is_none());
        rs
    });
    if let Some(rs) = &ranges {
        pairs.push(vec![format!("--pages={}", rs.iter().map(|r| r.0.clone()).collect::<Vec<_>>().join(","))]);
    }
    const STANDARDS: [(&str, PdfStandard); 3] = [("1.7", PdfStandard::V_1_7), ("a-2b", PdfStandard::A_2b), ("a-3b", PdfStandard::A_3b)];
    let standards: Vec<(&str, PdfStandard)> = (0..[0, 0, 1, 2][rng.below(4)]).map(|_| STANDARDS[rng.below(3)]).collect();
    if !standards.is_empty() {
        pairs.push(vec!["--pdf-standard".into(), standards.iter().map(|s| s.0).collect::<Vec<_>>().join(",")]);
    }
    let ppi = rng.chance(1, 3).then(|| ["72", "144.5", "1e3", "inf", "nan", "NaN"][rng.below(6)]);
    if let Some(p) = ppi {
        pairs.push(vec![format!("--ppi={p}")]);
    }
    let no_system = rng.chance(1, 3);
    if no_system {
        pairs.push(vec!["--ignore-system-fonts".into()]);
    }
    // The output, which is given after the input.
    let (output, by_ext) = match rng.below(4) {
        0 => (None, Some("pdf")),
        1 => {
            let (o, f) = [("out", None), ("out.txt", None), ("pdf", None), ("out.pdf.zip", None), (".pdf", None), ("-", None)][rng.below(6)];
            (Some(o.to_string()), f)
        }
        _ => {
            let f = FORMATS[rng.below(4)];
            (Some(format!("{}.{}", rng.one(&["out", "sub/x", "a.png", "page-{0p}-of-{t}"]), cased(rng, f))), Some(f))
        }
    };
    let kind = format.or(by_ext);
    rng.shuffle(&mut pairs);
    // In the order of the command line.
    let fonts: Vec<String> = pairs.iter().filter(|p| p[0].starts_with("--font-path")).map(|p| p.get(1).cloned().unwrap_or_else(|| p[0]["--font-path=".len()..].into())).collect();
    let mut argv = vec!["compile".to_string()];
    let at = rng.below(pairs.len() + 1);
    let at2 = rng.range(at, pairs.len());
    for (k, p) in pairs.iter().enumerate() {
        if k == at {
            argv.push(main.clone());
        }
        if k == at2 {
            argv.extend(output.clone().filter(|_| k >= at && at2 > at || k == at));
        }
        argv.extend(p.iter().cloned());
    }
    if at == pairs.len() {
        argv.push(main.clone());
    }
    if at2 == pairs.len() {
        argv.extend(output.clone());
    }
    let violate = |what: &str, got: String, expected: String| ctx.violate(what, json!({ "case": i, "argv": argv, "cwd": cwd, "got": got, "expected": expected }));
    ctx.eval(h64(&argv), pairs.len() > 2);
    let parsed = match (TaskCompileArgs::try_parse_from(&argv), bad_pages) {
        (Err(_), true) => {
            ctx.count("command lines with wrong pages", 1);
            return;
        }
        (Ok(a), false) => a,
        (r, _) => {
            violate("wrong-parse", format!("{:?}", r.map_err(|e| e.to_string())), format!("pages are wrong: {bad_pages}"));
            return;
        }
    };
    let path = |p: &String| format!("file:{}", rel(cwd, p));
    let show = |p: &Option<ResourcePath>| p.as_ref().map(|p| p.to_string());
    let doc = parsed.declare.to_input();
    let id = name.clone().unwrap_or_else(|| path(&main));
    let got = (doc.id.to_string(), doc.main.to_string(), show(&doc.root), doc.font_paths.iter().map(|p| p.to_string()).collect::<Vec<_>>(), doc.system_fonts, show(&doc.package_path), show(&doc.package_cache_path));
    let want = (id.clone(), path(&main), root.as_ref().map(path), fonts.iter().map(path).collect::<Vec<_>>(), !no_system, pkg.as_ref().map(path), pkg_cache.as_ref().map(path));
    ctx.count("documents", 1);
    if got != want {
        violate("other-document", format!("{got:?}"), format!("{want:?}"));
        return;
    }
    let not_a_number = kind == Some("png") && ppi.is_some_and(|p| p.eq_ignore_ascii_case("nan"));
    let t = match (parsed.to_task(doc.id.clone()), kind) {
        (Err(_), None) => {
            ctx.count("outputs of no format", 1);
            return;
        }
        (Err(_), _) if not_a_number => {
            ctx.count("resolutions that are no numbers", 1);
            return;
        }
        (Ok(t), Some(_)) if !not_a_number => t,
        (r, k) => {
            violate("wrong-task", format!("{r:?}"), format!("{k:?}"));
            return;
        }
    };
    ctx.count("tasks", 1);
    ctx.count(&format!("tasks for {}", kind.unwrap()), 1);
    let transform: Vec<ExportTransform> = ranges.iter().map(|rs| ExportTransform::Pages { ranges: rs.iter().map(|r| r.1.clone().unwrap()).collect() }).collect();
    let got_kind = match &t.task {
        ProjectTask::ExportPdf(p) if p.pdf_standards == standards.iter().map(|s| s.1).collect::<Vec<_>>() => "pdf",
        ProjectTask::ExportPng(p) if p.ppi.to_f32() == ppi.unwrap_or("144").parse::<f32>().unwrap() => "png",
        ProjectTask::ExportSvg(_) => "svg",
        ProjectTask::ExportHtml(_) => "html",
        _ => "?",
    };
    let e = t.task.as_export();
    let wanted_id = task.clone().unwrap_or(id.clone());
    let ok = got_kind == kind.unwrap()
        && t.task.extension() == kind.unwrap()
        && t.id.to_string() == wanted_id
        && t.document.to_string() == id
        && t.task.when() == Some(when.map(|w| w.1).unwrap_or(TaskWhen::Never))
        && e.is_some_and(|e| e.transform == transform);
    if !ok {
        violate("other-task", format!("{t:?}"), format!("{kind:?} {wanted_id} of {id} {when:?} {transform:?} {standards:?} {ppi:?}"));
        return;
    }
    ctx.sample(|| json!({ "argv": argv, "task": format!("{t:?}") }));
}

fn plain(d: &typst::foundations::Dict) -> BTreeMap<String, String> {
    d.0.iter()
        .map(|(k, v)| {
            let v = match v {
                Value::Str(s) => s.as_str().to_string(),
                v => format!("{v:?}"),
            };
            (k.as_str().to_string(), v)
        })
        .collect()
}

/// Compilations from a directory: the file, the root and the inputs.
fn compile(ctx: &Ctx, i: usize, cwd: &Path) {
    let mut rng = ctx.rng(0xc0ff ^ (i as u64) << 24);
    let rng = &mut rng;
    let spell = |rng: &mut Rng, p: &str| match rng.below(4) {
        0 => cwd.join(p).display().to_string(),
        1 => cwd.join(p).clean().display().to_string(),
        2 => format!("./{p}"),
        _ => p.to_string(),
    };
    let main = { let p = rng.one(&["main.typ", "sub/a.typ", "../up.typ", "sub/../main.typ", "sub/deep/../a.typ", "../../far.typ"]); spell(rng, p) };
    let root = rng.chance(3, 4).then(|| { let p = rng.one(&[".", "..", "sub", "../..", "sub/..", "other", "sub/deep/.."]); spell(rng, p) });
    let mut argv = vec!["compile".to_string(), main.clone()];
    if let Some(r) = &root {
        argv.extend(["--root".into(), r.clone()]);
    }
    let mut inputs: BTreeMap<String, String> = BTreeMap::new();
    let mut bad = false;
    for _ in 0..rng.below(4) {
        let (k, v) = (rng.one(&["k", "key two", "é", "x-y"]), rng.one(&["", "v", "a=b", "=", "two words", "\"q\"", "é"]));
        let sp = |rng: &mut Rng| [" ", "", "\t", ""][rng.below(4)];
        let pair = match rng.below(12) {
            0 => {
                bad = true;
                rng.one(&["", "=v", " =v", "noequals"]).to_string()
            }
            _ => {
                inputs.insert(k.into(), v.into());
                format!("{}{k}{}={}{v}{}", sp(rng), sp(rng), sp(rng), sp(rng))
            }
        };
        argv.push(format!("--input={pair}"));
    }
    let html = rng.chance(1, 3);
    if html {
        argv.push("--features=html".into());
    }
    let stamp = rng.chance(1, 4).then(|| ["0", "-5", "1700000000", "x", "1.5"][rng.below(5)]);
    if let Some(t) = stamp {
        argv.push(format!("--creation-timestamp={t}"));
        bad |= t.parse::<i64>().is_err();
    }
    let violate = |what: &str, got: String, expected: String| ctx.violate(what, json!({ "case": i, "argv": argv, "cwd": cwd, "got": got, "expected": expected }));
    ctx.eval(h64(&argv), root.is_some());
    let args = match (CompileOnceArgs::try_parse_from(&argv), bad) {
        (Err(_), true) => {
            ctx.count("command lines with wrong inputs", 1);
            return;
        }
        (Ok(a), false) => a,
        (r, _) => {
            violate("wrong-parse", format!("{:?}", r.map_err(|e| e.to_string())), format!("inputs are wrong: {bad}"));
            return;
        }
    };
    let dict: BTreeMap<String, String> = args.resolve_inputs().map(|d| plain(&d)).unwrap_or_default();
    if dict != inputs || args.creation_timestamp != stamp.and_then(|s| s.parse().ok()) || args.features.contains(&Feature::Html) != html {
        violate("other-inputs", format!("{dict:?} {:?} {:?}", args.creation_timestamp, args.features), format!("{inputs:?} {stamp:?} {html}"));
        return;
    }
    let file = cwd.join(&main).clean();
    let at: PathBuf = root.as_ref().map(|r| cwd.join(r).clean()).unwrap_or_else(|| file.parent().unwrap().into());
    let inside = file.starts_with(&at);
    let doc = ProjectInput {
        id: Id::new("it".into()),
        root: root.as_ref().map(|r| ResourcePath::from_user_sys(Path::new(r))),
        main: ResourcePath::from_user_sys(Path::new(&main)),
        inputs: inputs.clone().into_iter().collect(),
        font_paths: vec![],
        system_fonts: false,
        package_path: None,
        package_cache_path: None,
    };
    let lock_dir: tinymist_std::ImmutPath = cwd.into();
    let ways = [
        ("the command line", args.resolve(), inside, at.clone(), inputs.clone()),
        // Without a root of its own, the directory of the lock file is the root.
        ("the lock file", (doc.clone(), lock_dir).resolve(), file.starts_with(doc.root.as_ref().map_or(cwd, |_| &at)), if root.is_some() { at.clone() } else { cwd.into() }, inputs.clone()),
    ];
    // The same without the language server.
    let sys = args.resolve_sys_entry_opts().and_then(tinymist_world::EntryState::try_from);
    let got = sys.as_ref().ok().map(|e| (e.root().map(|r| r.clean()), e.root().and_then(|r| e.main()?.vpath().resolve(&r)).map(|p| p.clean())));
    match (got, inside) {
        (Some((Some(r), Some(m))), true) if r == at && m == file => ctx.count("entries of compilations within the root", 1),
        (None | Some((_, None)), false) => ctx.count("entries of compilations outside the root", 1),
        (g, _) => {
            violate("other-entry", format!("{g:?} {sys:?}"), format!("{file:?} in {at:?}, inside {inside}"));
            return;
        }
    }
    for (way, verse, inside, at, inputs) in ways {
        let got = verse.as_ref().ok().map(|v| {
            let w = v.snapshot();
            let main = w.path_for_id(w.main()).ok().map(|p| p.as_path().clean());
            let dict: BTreeMap<String, String> = plain(&w.inputs());
            (main, w.entry_state().root().map(|r| r.clean()), dict)
        });
        match (got, inside) {
            (Some((Some(m), Some(r), d)), true) if m == file && r == at && d == inputs => ctx.count("entries within the root", 1),
            (None | Some((None, ..)), false) => ctx.count("entries outside the root", 1),
            (g, _) => {
                violate("other-entry", format!("{way}: {g:?} {:?}", verse.err()), format!("{file:?} in {at:?}, inside {inside} {inputs:?}"));
                return;
            }
        }
    }
}

pub fn c70(ctx: &Ctx) -> i32 {
    vm_core::install_panic_hook();
    for v in ["TYPST_ROOT", "TYPST_FONT_PATHS", "TYPST_PACKAGE_PATH", "TYPST_PACKAGE_CACHE_PATH", "TYPST_FEATURES", "SOURCE_DATE_EPOCH", "TYPST_CERT"] {
        std::env::remove_var(v);
    }
    let s = Scratch::new("cli");
    let cwd = s.path().join("over/work");
    std::fs::create_dir_all(&cwd).unwrap();
    std::env::set_current_dir(&cwd).unwrap();
    let n = ctx.n(3000, 60000);
    vm_core::parallel(ctx, n, 8, |i| {
        if i % 3 == 0 {
            compile(ctx, i, &cwd)
        } else {
            tasks(ctx, i, &cwd)
        }
    });
    // The output path that is given, and none but that.
    for (output, signature) in [(Some("named.pdf"), "output-path-dropped"), (None, "output-path-invented")] {
        let argv = ["compile", "main.typ"].into_iter().chain(output);
        let t = TaskCompileArgs::try_parse_from(argv).map_err(|e| e.to_string()).and_then(|a| a.to_task(Id::new("it".into())).map_err(|e| e.to_string()));
        let kept = t.as_ref().ok().and_then(|t| t.task.as_export()).and_then(|e| e.output.clone());
        if kept.is_some() != output.is_some() || t.is_err() {
            ctx.violate(signature, json!({ "output": output, "task": format!("{t:?}") }));
        }
    }
    ctx.drain_panics("a command line panicked", || json!({}));
    std::env::set_current_dir("/").unwrap();
    for (k, n) in [
        ("documents", 500), ("tasks", 300), ("tasks for pdf", 50), ("tasks for png", 50), ("tasks for svg", 50), ("tasks for html", 50), ("outputs of no format", 30),
        ("command lines with wrong pages", 50), ("command lines with wrong inputs", 50), ("entries within the root", 300), ("entries outside the root", 100), ("resolutions that are no numbers", 5),
    ] {
        ctx.require(k, n);
    }
    ctx.finish("monitored", "what is parsed from a command line is the document, entry, inputs and task which that says, or an error", &["typst is a stand-in", "how the pattern of an output path is expanded is C67"])
}
