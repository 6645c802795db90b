//! C28, C29, C31: path algebra.

use std::ffi::OsStr;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::symlink;
use std::path::{Component, Path, PathBuf};
use tinymist_std::fs::paths;
use tinymist_std::path as tp;
use tp::PathClean;
use vm_core::{json, parallel, Ctx, Rng, Scratch};

fn part(r: &mut Rng) -> Vec<u8> {
    match r.below(16) {
        0..=2 => b"..".to_vec(),
        3..=4 => b".".to_vec(),
        5 => vec![],
        6 => b"...".to_vec(),
        7 => "é 中😀".into(),
        8 => b"a b".to_vec(),
        9 => b"\\x".to_vec(),
        10 => b".hidden".to_vec(),
        11 => b"..b".to_vec(),
        12 => b"c:".to_vec(),
        13 => r.text(6).replace(['/', '\0'], "_").into_bytes(),
        _ => vec![b"abc"[r.below(3)]],
    }
}

fn raw(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = r.below(max + 1);
    let mut v: Vec<u8> = vec![];
    if r.chance(1, 2) {
        v.push(b'/');
    }
    for i in 0..n {
        if i > 0 {
            v.extend(std::iter::repeat_n(b'/', if r.chance(1, 6) { 2 } else { 1 }));
        }
        v.extend(part(r));
    }
    if r.chance(1, 5) && !v.is_empty() {
        v.push(b'/');
    }
    if r.chance(1, 20) && n > 0 {
        v.extend([b'/', 0xff, b'x']);
    }
    v
}

fn path(r: &mut Rng, max: usize) -> PathBuf {
    PathBuf::from(std::ffi::OsString::from_vec(raw(r, max)))
}

/// Independent of the standard library's path components.
fn split(p: &Path) -> (bool, Vec<Vec<u8>>) {
    let b = p.as_os_str().as_bytes();
    (b.first() == Some(&b'/'), b.split(|c| *c == b'/').filter(|s| !s.is_empty() && s != b".").map(|s| s.to_vec()).collect())
}

fn lexical(p: &Path) -> (bool, Vec<Vec<u8>>) {
    let (abs, parts) = split(p);
    let mut out: Vec<Vec<u8>> = vec![];
    for s in parts {
        if s == b".." {
            match out.last() {
                Some(l) if l != b".." => {
                    out.pop();
                }
                _ if abs => {}
                _ => out.push(s),
            }
        } else {
            out.push(s);
        }
    }
    (abs, out)
}

fn join(abs: bool, parts: &[Vec<u8>]) -> Vec<u8> {
    let mut v = if abs { vec![b'/'] } else { vec![] };
    v.extend(parts.join(&b'/'));
    if v.is_empty() {
        v.push(b'.');
    }
    v
}

/// A directory tree without links, for observing what a path denotes.
struct World {
    s: Scratch,
    dirs: Vec<PathBuf>,
}

fn world() -> World {
    let s = Scratch::new("paths");
    let mut dirs = vec![PathBuf::new()];
    for a in ["a", "b", "c", "..b", "a b"] {
        for b in ["", "a", "b/c", "é 中😀"] {
            for c in ["", "c/a"] {
                let d = Path::new(a).join(b).join(c);
                let _ = std::fs::create_dir_all(s.path().join(&d));
                dirs.push(d);
            }
        }
    }
    World { s, dirs }
}

/// Something that exists, written in a roundabout way.
fn roundabout(r: &mut Rng, w: &World) -> PathBuf {
    let mut p: Vec<u8> = w.s.path().as_os_str().as_bytes().to_vec();
    for c in r.pick(&w.dirs).components() {
        if r.chance(1, 4) {
            p.extend(b"/.");
        }
        if r.chance(1, 4) {
            p.extend(b"/a/../");
            if !Path::new(OsStr::from_bytes(&p)).exists() {
                p.truncate(p.len() - 5);
            }
        }
        p.push(b'/');
        p.extend(c.as_os_str().as_bytes());
    }
    if r.chance(1, 5) {
        p.push(b'/');
    }
    PathBuf::from(std::ffi::OsString::from_vec(p))
}

// ---------------------------------------------------------------- C28

pub fn c28(ctx: &Ctx) -> i32 {
    parallel(ctx, ctx.n(64, 2000), 8, |k| {
        let mut r = ctx.rng(k as u64);
        for _ in 0..400 {
            let p = path(&mut r, 9);
            let (abs, parts) = lexical(&p);
            let want = join(abs, &parts);
            let got = tp::clean(&p);
            ctx.eval(vm_core::h64(&p), true);
            ctx.count("lexical", 1);
            let mut bad = vec![];
            if got.as_os_str().as_bytes() != want {
                bad.push(format!("clean gives {got:?}, expected {:?}", String::from_utf8_lossy(&want)));
            }
            if p.clean() != got || tp::clean(&got) != got {
                bad.push("clean is not idempotent".into());
            }
            // The unix form: the same components, joined by slashes; "." for nothing.
            let (a2, p2) = split(&p);
            let want2: String = {
                let j = join(a2, &p2.iter().map(|b| String::from_utf8_lossy(b).into_owned().into_bytes()).collect::<Vec<_>>());
                String::from_utf8_lossy(&j).into_owned()
            };
            let us = tp::unix_slash(&p);
            if us != want2 {
                bad.push(format!("unix_slash gives {us:?}, expected {want2:?}"));
            }
            if tp::unix_slash(Path::new(&us)) != us {
                bad.push("unix_slash is not idempotent".into());
            }
            if p.to_str().is_some() && tp::clean(Path::new(&us)) != got {
                bad.push("unix_slash changes what the path denotes".into());
            }
            if !bad.is_empty() {
                ctx.violate("paths:clean", json!({"path": p.to_string_lossy(), "problems": bad}));
            }
            ctx.sample(|| json!({"path": p.to_string_lossy(), "clean": got.to_string_lossy(), "unix": us}));
        }
    });
    // What a path denotes does not change, on a real tree without links.
    let w = world();
    parallel(ctx, ctx.n(16, 400), 4, |k| {
        let mut r = ctx.rng(1 << 32 | k as u64);
        for _ in 0..50 {
            let p = roundabout(&mut r, &w);
            let Ok(c) = std::fs::canonicalize(&p) else { continue };
            ctx.count("resolved", 1);
            ctx.eval(vm_core::h64(&p), true);
            let q = tp::clean(&p);
            let n = paths::normalize_path(&p);
            let u = tp::unix_slash(&p);
            if q != c || n != c || std::fs::canonicalize(&u).ok().as_ref() != Some(&c) {
                ctx.violate("paths:denotes", json!({"path": p, "is": c, "clean": q, "normalize": n, "unix": u}));
            }
        }
    });
    ctx.require("lexical", 5000);
    ctx.require("resolved", 200);
    ctx.finish(
        "exploration",
        "one path (absolute or relative, with dots, repeated and trailing slashes, Unicode, non-UTF-8 bytes) against an independent lexical model, or a roundabout path to an existing directory; distinct by path",
        &["Unix path syntax only"],
    )
}

// ---------------------------------------------------------------- C29

pub fn c29(ctx: &Ctx) -> i32 {
    parallel(ctx, ctx.n(64, 2000), 8, |k| {
        let mut r = ctx.rng(k as u64);
        for _ in 0..400 {
            let base = path(&mut r, 5);
            let (mut fr, mut to) = (path(&mut r, 6), path(&mut r, 6));
            if r.chance(2, 3) {
                fr = base.join(fr.strip_prefix("/").unwrap_or(&fr));
                to = base.join(to.strip_prefix("/").unwrap_or(&to));
            }
            let ((fa, f), (ta, t)) = (lexical(&fr), lexical(&to));
            let got = tp::diff(&to, &fr); // the path first, then the base
            ctx.eval(vm_core::h64(&(&fr, &to)), fa == ta);
            ctx.count("pairs", 1);
            let show = || json!({"from": fr.to_string_lossy(), "to": to.to_string_lossy(), "diff": got.as_ref().map(|d| d.to_string_lossy().into_owned())});
            if fa != ta {
                // Only an absolute target can be named from an unrelated base.
                if got.is_some() != ta || got.as_ref().is_some_and(|d| lexical(d) != (ta, t.clone())) {
                    ctx.violate("paths:diff-mixed", show());
                }
                continue;
            }
            let up = f.first().is_some_and(|c| c == b"..");
            if up && !fa {
                // Unknown names above the common base: only termination is claimed.
                continue;
            }
            ctx.count("related pairs", 1);
            let common = f.iter().zip(&t).take_while(|(a, b)| a == b).count();
            let mut want = vec![b"..".to_vec(); f.len() - common];
            want.extend_from_slice(&t[common..]);
            match &got {
                None => ctx.violate("paths:diff-none", show()),
                Some(d) => {
                    let (da, dp) = split(d);
                    let back = lexical(&fr.join(d));
                    if da || dp != want || back != (ta, t.clone()) {
                        ctx.violate("paths:diff", json!({"case": show(), "expected": String::from_utf8_lossy(&join(false, &want))}));
                    }
                }
            }
            ctx.sample(show);
        }
    });
    let w = world();
    parallel(ctx, ctx.n(16, 400), 4, |k| {
        let mut r = ctx.rng(1 << 32 | k as u64);
        for _ in 0..40 {
            let (a, b) = (roundabout(&mut r, &w), roundabout(&mut r, &w));
            let (Ok(_), Ok(cb)) = (std::fs::canonicalize(&a), std::fs::canonicalize(&b)) else { continue };
            ctx.count("resolved", 1);
            ctx.eval(vm_core::h64(&(&a, &b)), true);
            let d = tp::diff(&b, &a);
            let reached = d.as_ref().and_then(|d| std::fs::canonicalize(a.join(d)).ok());
            if reached.as_ref() != Some(&cb) {
                ctx.violate("paths:diff-denotes", json!({"from": a, "to": b, "diff": d, "reaches": reached}));
            }
        }
    });
    ctx.require("related pairs", 3000);
    ctx.require("resolved", 200);
    ctx.finish(
        "exploration",
        "one pair of paths, related by a common base or not, against an independent lexical model, or of existing directories; distinct by pair",
        &["Unix path syntax only", "bases that lead above their starting point by .. are not claimed"],
    )
}

// ---------------------------------------------------------------- C31

pub fn c31(ctx: &Ctx) -> i32 {
    std::env::remove_var("__CARGO_TEST_ROOT");
    executables(ctx);
    parallel(ctx, ctx.n(64, 2000), 8, |k| {
        let mut r = ctx.rng(k as u64);
        for _ in 0..200 {
            let p = path(&mut r, 8);
            let mut bad: Vec<String> = vec![];
            ctx.eval(vm_core::h64(&p), true);
            ctx.count("paths", 1);
            // normalize_path: never above its start.
            let (abs, parts) = split(&p);
            let mut st: Vec<Vec<u8>> = vec![];
            for s in parts {
                if s == b".." {
                    st.pop();
                } else {
                    st.push(s);
                }
            }
            let n = paths::normalize_path(&p);
            if split(&n) != (abs, st) || n.components().any(|c| matches!(c, Component::CurDir | Component::ParentDir)) {
                bad.push(format!("normalize_path gives {n:?}"));
            }
            // ancestors: the path and its parents, each once, up to the stop.
            let all: Vec<&Path> = p.ancestors().collect();
            let got: Vec<&Path> = paths::ancestors(&p, None).collect();
            if got != all {
                bad.push(format!("ancestors gives {got:?}"));
            }
            let stop = if r.chance(2, 3) { all[r.below(all.len())].to_path_buf() } else { path(&mut r, 3) };
            let upto = all.iter().position(|a| *a == stop).map_or(all.len(), |i| i + 1);
            let got: Vec<&Path> = paths::ancestors(&p, Some(&stop)).collect();
            if got != all[..upto] {
                bad.push(format!("ancestors up to {stop:?} gives {got:?}"));
            }
            // bytes
            let b = raw(&mut r, 6);
            match paths::bytes2path(&b) {
                Ok(q) => {
                    if paths::path2bytes(&q).ok() != Some(&b[..]) {
                        bad.push(format!("bytes {b:?} do not survive"));
                    }
                }
                Err(e) => bad.push(format!("{e:#}")),
            }
            // search path lists
            let list: Vec<PathBuf> = (0..r.range(1, 4)).map(|_| path(&mut r, 3)).collect();
            let colon = list.iter().any(|p| p.as_os_str().as_bytes().contains(&b':'));
            match paths::join_paths(&list, "VARNAME") {
                Ok(j) if !colon => {
                    if std::env::split_paths(&j).collect::<Vec<_>>() != list {
                        bad.push(format!("join_paths {list:?} gives {j:?}"));
                    }
                }
                Err(e) if colon => {
                    let m = format!("{e:#}");
                    if !m.contains("VARNAME") || list.iter().any(|p| !m.contains(&format!("{p:?}"))) {
                        bad.push(format!("the error does not list the paths: {m}"));
                    }
                }
                o => bad.push(format!("join_paths {list:?}: {o:?}")),
            }
            if !bad.is_empty() {
                ctx.violate("paths:helpers", json!({"path": p.to_string_lossy(), "problems": bad}));
            }
        }
    });
    // strip_prefix_canonical through links.
    parallel(ctx, ctx.n(24, 400), 4, |k| {
        let mut r = ctx.rng(1 << 40 | k as u64);
        let s = Scratch::new("strip");
        let root = s.path();
        for d in ["r/a/b", "r/ab", "q/x"] {
            std::fs::create_dir_all(root.join(d)).unwrap();
        }
        std::fs::write(root.join("r/a/b/f"), b"f").unwrap();
        symlink("r", root.join("lr")).unwrap();
        symlink(root.join("r/a"), root.join("q/la")).unwrap();
        symlink("../ab", root.join("r/a/up")).unwrap();
        let all = ["r", "r/a", "r/a/b", "r/a/b/f", "r/ab", "lr", "lr/a", "lr/a/b/f", "q", "q/la", "q/la/b", "r/a/up", "q/../r/a", "lr/./ab", "missing/x", "missing"];
        for _ in 0..60 {
            let (p, b) = (root.join(r.pick(&all)), root.join(r.pick(&all)));
            let canon = |p: &Path| p.canonicalize().unwrap_or_else(|_| p.to_path_buf());
            let (cp, cb) = (canon(&p), canon(&b));
            let got = paths::strip_prefix_canonical(&p, &b);
            ctx.count("canonical prefixes", 1);
            ctx.eval(vm_core::h64(&(p.strip_prefix(root).ok(), b.strip_prefix(root).ok())), true);
            let ok = match &got {
                Ok(rest) => cp.starts_with(&cb) && rest.is_relative() && cb.join(rest).components().eq(cp.components()),
                Err(_) => !cp.starts_with(&cb),
            };
            if !ok {
                ctx.violate("paths:strip_prefix_canonical", json!({"path": p, "base": b, "result": format!("{got:?}")}));
            }
        }
    });
    ctx.require("paths", 3000);
    ctx.require("canonical prefixes", 500);
    ctx.finish(
        "exploration",
        "one path through every helper against an independent model, a pair of paths through links, or an executable lookup; distinct by input",
        &["Unix path syntax only"],
    )
}

/// The first file of that name on the search path (single-threaded: it changes the environment of this process).
fn executables(ctx: &Ctx) {
    let old = std::env::var_os("PATH");
    let s = Scratch::new("path");
    let mut r = ctx.rng(5);
    for i in 0..ctx.n(60, 600) {
        let dirs: Vec<PathBuf> = (0..4).map(|k| s.path().join(format!("c{i}/d{k} é"))).collect();
        let mut first = None;
        for d in &dirs {
            match r.below(4) {
                0 => {
                    std::fs::create_dir_all(d).unwrap();
                    std::fs::write(d.join("tool"), b"#!").unwrap();
                    first = first.or(Some(d.join("tool")));
                }
                1 => std::fs::create_dir_all(d.join("tool")).unwrap(), // a directory of that name
                2 => std::fs::create_dir_all(d).unwrap(),
                _ => {}
            }
        }
        std::env::set_var("PATH", std::env::join_paths(&dirs).unwrap());
        let got = paths::resolve_executable(Path::new("tool")).ok();
        ctx.eval(vm_core::h64(&(i, &first.is_some())), true);
        ctx.count("lookups", 1);
        let slash = paths::resolve_executable(Path::new("x/tool")).ok();
        let key = paths::dylib_path_envvar();
        std::env::set_var(key, std::env::join_paths(&dirs).unwrap());
        let dl = paths::dylib_path();
        std::env::remove_var(key);
        // (This is Linux.)
        if key != "LD_LIBRARY_PATH" || got != first || slash.as_deref() != Some(Path::new("x/tool")) || dl != dirs || !paths::dylib_path().is_empty() {
            if let Some(o) = &old {
                std::env::set_var("PATH", o);
            }
            ctx.violate("paths:resolve_executable", json!({"expected": first, "got": got, "with a slash": slash}));
            return;
        }
    }
    if let Some(o) = old {
        std::env::set_var("PATH", o);
    }
}
