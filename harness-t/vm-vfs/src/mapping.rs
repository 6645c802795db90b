//! File ids and the paths that they stand for.

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Component, Path, PathBuf};
use std::sync::{Arc, Mutex};

use serde_json::json;
use tinymist_std::ImmutPath;
use tinymist_vfs::{FileId, PathResolution, RootResolver, WorkspaceResolution, WorkspaceResolver};
use typst::diag::FileError;
use typst::syntax::package::{PackageSpec, PackageVersion};
use typst::syntax::VirtualPath;
use vm_core::{guard, h64, parallel, Ctx, Rng};

use crate::disk::Packages;

/// The lexical meaning of an absolute path.
fn lexical(p: &Path) -> PathBuf {
    let mut out = PathBuf::from("/");
    for c in p.components() {
        match c {
            Component::ParentDir => {
                out.pop();
            }
            Component::Normal(n) => out.push(n),
            _ => {}
        }
    }
    out
}

const NAMES: [&str; 9] = ["a", "b", "ws", "p0", "p1", "a b", "é", "..a", "a."];

/// One of the roots, in some spelling.
fn root(r: &mut Rng) -> PathBuf {
    let n = r.below(4);
    let mut s = String::new();
    for _ in 0..n {
        s += "/";
        s += *r.pick(&NAMES);
        match r.below(10) {
            0 => s += "/.",
            1 => s += "/",
            2 => s += "/x/..",
            3 => s += "/../y",
            _ => {}
        }
    }
    if n == 0 {
        s += "/";
    }
    s.into()
}

fn relative(r: &mut Rng) -> String {
    let mut v = vec![];
    for _ in 0..r.range(1, 5) {
        v.push(match r.below(6) {
            0 => "..",
            1 => ".",
            _ => *r.pick(&NAMES),
        });
    }
    let s = v.join("/");
    if r.chance(1, 3) {
        format!("/{s}")
    } else {
        s
    }
}

/// Where a virtual path leads below its root: the names, or none when it leaves the root.
fn below(vpath: &str) -> Option<Vec<String>> {
    let mut out: Vec<String> = vec![];
    for c in vpath.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop()?;
            }
            c => out.push(c.into()),
        }
    }
    Some(out)
}

/// Where a virtual path leads; everything is inside of the root of the file system.
fn inside(root: &Path, vpath: &str) -> Option<PathBuf> {
    if root == Path::new("/") {
        return Some(lexical(&root.join(vpath)));
    }
    below(vpath).map(|n| n.iter().fold(root.to_path_buf(), |p, n| p.join(n)))
}

fn resolved(x: Result<PathResolution, FileError>) -> Result<PathBuf, FileError> {
    x.and_then(|p| p.to_err())
}

fn case(ctx: &Ctx, r: &mut Rng) {
    let mut pk = Packages::default();
    let spec = PackageSpec { namespace: "preview".into(), name: "p0".into(), version: "0.0.0".parse().unwrap() };
    let proot = root(r);
    let proot = lexical(&proot);
    pk.0.insert(spec.to_string(), proot.as_path().into());
    for _ in 0..40 {
        let raw = root(r);
        let clean = lexical(&raw);
        let iraw: ImmutPath = raw.as_path().into();
        let v = relative(r);
        let vp = VirtualPath::new(&v);
        let fail = |what: &str, more: serde_json::Value| {
            ctx.violate(what, json!({"root": raw, "vpath": v, "detail": more}));
        };
        // The root, in whatever spelling, has one id, which leads back to it.
        let id = WorkspaceResolver::workspace_id(&iraw);
        if id != WorkspaceResolver::workspace_id(&iraw) || id != WorkspaceResolver::workspace_id(&clean.as_path().into()) {
            fail("ids-of-one-root-differ", json!(clean));
        }
        if *id.path() != *clean {
            fail("id-of-another-root", json!({"path": id.path().to_path_buf(), "want": clean}));
        }
        let fid = WorkspaceResolver::workspace_file(Some(&iraw), vp.clone());
        if fid != WorkspaceResolver::workspace_file(Some(&clean.as_path().into()), vp.clone()) {
            fail("ids-of-one-file-differ", json!(clean));
        }
        let want = inside(&clean, &v);
        let got = resolved(pk.path_for_id(fid));
        match (&want, &got) {
            (Some(w), Ok(g)) if w == g => {}
            (None, Err(FileError::AccessDenied)) => {}
            _ => fail("resolves-elsewhere", json!({"got": format!("{got:?}"), "want": want})),
        }
        if let Ok(g) = &got {
            if !g.starts_with(&clean) {
                fail("escapes-its-root", json!({"got": g}));
            }
        }
        if !WorkspaceResolver::is_workspace_file(fid) || WorkspaceResolver::is_package_file(fid) {
            fail("not-a-workspace-file", json!(null));
        }
        match pk.resolve_root(fid) {
            Ok(Some(p)) if *p == *clean => {}
            o => fail("root-of-file", json!({"got": format!("{o:?}")})),
        }
        if let Some(w) = &want {
            let shown = format!("{:?}", WorkspaceResolver::display(Some(fid)));
            if shown != w.display().to_string() {
                fail("displayed-as-another", json!({"got": shown, "want": w}));
            }
        }
        // Untitled files of the root have no path, but their root.
        let u = WorkspaceResolver::rooted_untitled(Some(&iraw), vp.clone());
        if u == fid || resolved(pk.path_for_id(u)) != Err(FileError::AccessDenied) {
            fail("untitled-has-a-path", json!({"got": format!("{:?}", pk.path_for_id(u))}));
        }
        match pk.resolve_root(u) {
            Ok(Some(p)) if *p == *clean => {}
            o => fail("root-of-untitled", json!({"got": format!("{o:?}")})),
        }
        if !matches!(WorkspaceResolver::resolve(u), Ok(WorkspaceResolution::UntitledRooted(x)) if x == id) {
            fail("untitled-of-another-root", json!(null));
        }
        // Files without any root.
        let n = WorkspaceResolver::workspace_file(None, vp.clone());
        if n != WorkspaceResolver::rootless_file(vp.clone()) || resolved(pk.path_for_id(n)) != Err(FileError::AccessDenied) {
            fail("rootless-has-a-path", json!(null));
        }
        if !matches!(pk.resolve_root(n), Ok(None)) {
            fail("root-of-rootless", json!(null));
        }
        // A file of its parent directory.
        let file = raw.join(r.pick(&NAMES));
        if let (Some(f), Some(parent), Some(name)) = (WorkspaceResolver::file_with_parent_root(&file), file.parent(), file.file_name()) {
            let want = lexical(parent).join(name);
            if resolved(pk.path_for_id(f)) != Ok(want.clone()) {
                fail("file-with-parent-root", json!({"file": file, "got": format!("{:?}", pk.path_for_id(f)), "want": want}));
            }
        } else {
            fail("no-file-with-parent-root", json!({"file": file}));
        }
        if WorkspaceResolver::file_with_parent_root(Path::new(&v.trim_start_matches('/').to_string())).is_some() {
            fail("relative-file-with-parent-root", json!(null));
        }
        // Files of packages.
        let p = FileId::new(Some(spec.clone()), vp.clone());
        let want = inside(&proot, &v);
        let got = resolved(pk.path_for_id(p));
        match (&want, &got) {
            (Some(w), Ok(g)) if w == g => {}
            (None, Err(FileError::AccessDenied)) => {}
            _ => fail("package-file-elsewhere", json!({"got": format!("{got:?}"), "want": want})),
        }
        if WorkspaceResolver::is_workspace_file(p) || !WorkspaceResolver::is_package_file(p) {
            fail("not-a-package-file", json!(null));
        }
        // Specifications that only look like those of workspaces, as a document may spell them.
        let name = match r.below(8) {
            0 => "p".to_string(),
            1 => "q0".into(),
            2 => format!("p{}", r.range(65_000, 70_000)),
            3 => "p-1".into(),
            4 => "p999999999999999999999".into(),
            5 => "pé".into(),
            6 => format!("p{}", r.range(40_000, 65_535)),
            _ => String::new(),
        };
        let forged = PackageSpec { namespace: "ws".into(), name: name.as_str().into(), version: PackageVersion { major: 0, minor: 0, patch: r.below(3) as u32 } };
        let f = FileId::new(Some(forged.clone()), vp.clone());
        let g = guard(|| {
            let _ = format!("{:?}", WorkspaceResolver::display(Some(f)));
            let _ = pk.resolve_root(f);
            resolved(pk.path_for_id(f))
        });
        match g {
            Ok(Err(_)) => {}
            Ok(Ok(p)) => fail("forged-workspace", json!({"spec": forged.to_string(), "got": p})),
            Err(e) => fail("forged-workspace-panics", json!({"spec": forged.to_string(), "panic": format!("{e:?}")})),
        }
        ctx.count("files", 1);
        ctx.eval(h64(&(raw.clone(), v.clone())), true);
        if ctx.violations() >= 5 {
            return;
        }
    }
}

/// Threads that ask for the same roots get the same ids, and different roots different ones.
fn shared(ctx: &Ctx, r: &mut Rng) {
    let mark = r.u64();
    let roots: Arc<Vec<PathBuf>> = Arc::new((0..4).map(|k| format!("/shared/{mark}/{k}").into()).collect());
    let seen: Arc<Mutex<BTreeMap<PathBuf, BTreeSet<FileId>>>> = Arc::default();
    let gate = Arc::new(std::sync::Barrier::new(6));
    let hs: Vec<_> = (0..6)
        .map(|t| {
            let (roots, seen, gate) = (roots.clone(), seen.clone(), gate.clone());
            std::thread::spawn(move || {
                gate.wait();
                let mut mine = vec![];
                for k in 0..roots.len() {
                    let p = &roots[(k + t) % roots.len()];
                    let id = WorkspaceResolver::workspace_id(&p.as_path().into());
                    let f = WorkspaceResolver::workspace_file(Some(&p.as_path().into()), VirtualPath::new("f.typ"));
                    if *id.path() != **p {
                        mine.push((PathBuf::from("mixed up"), f));
                    }
                    mine.push((p.clone(), f));
                }
                let mut s = seen.lock().unwrap();
                for (p, f) in mine {
                    s.entry(p).or_default().insert(f);
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let seen = seen.lock().unwrap();
    let all: BTreeSet<FileId> = seen.values().flatten().copied().collect();
    if seen.values().any(|s| s.len() != 1) || all.len() != roots.len() || seen.len() != roots.len() {
        ctx.violate("racing-ids-differ", json!(seen.iter().map(|(p, s)| (p.display().to_string(), format!("{s:?}"))).collect::<BTreeMap<_, _>>()));
    }
    ctx.count("racing roots", roots.len() as u64);
}

pub fn c54(ctx: &Ctx) -> i32 {
    parallel(ctx, ctx.n(400, 5000), 8, |i| {
        if ctx.violations() >= 5 {
            return;
        }
        let mut r = ctx.rng(i as u64);
        case(ctx, &mut r);
        if i % 10 == 0 && i < 50_000 {
            shared(ctx, &mut r);
        }
    });
    ctx.require("files", 1000);
    ctx.require("racing roots", 10);
    ctx.finish(
        "exploration",
        "roots and virtual paths in odd spellings, untitled and rootless files, packages, forged specifications, and threads that race to name the same roots; oracle: independent lexical resolution",
        &["typst's FileId and VirtualPath are stand-ins that behave as documented"],
    )
}
