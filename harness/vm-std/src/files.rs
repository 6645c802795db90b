//! C23, C25, C26, C27: file helpers, temporary directories, cache directories, links.

use crate::fault::{self, End};
use crate::tree;
use std::os::unix::fs::{symlink, MetadataExt};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::{Duration, SystemTime};
use tinymist_std::fs::paths;
use vm_core::{guard, json, parallel, Ctx, Rng, Scratch};

fn bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(250) {
        0 => *r.pick(&[(1 << 20) + 1, 3_000_000, 9_000_000, 20_000_000]),
        _ => [0, 1, 3, 17, 200, 4096, 9000, 70_000][r.below(8)],
    };
    if n > 1 << 20 {
        return crate::atomic::content(r.u64(), n);
    }
    match r.below(3) {
        0 => (0..n).map(|_| r.u64() as u8).collect(),
        1 => r.text(n.min(400)).into_bytes(),
        _ => vec![b'x'; n],
    }
}

fn backdate(p: &Path) -> SystemTime {
    let t = SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000);
    if let Ok(f) = std::fs::OpenOptions::new().append(true).open(p) {
        let _ = f.set_modified(t);
    }
    t
}

fn mtime(p: &Path) -> Option<SystemTime> {
    std::fs::metadata(p).ok()?.modified().ok()
}

// ---------------------------------------------------------------- C23

pub fn c23(ctx: &Ctx) -> i32 {
    histories(ctx);
    appenders(ctx);
    failures(ctx);
    call_faults(ctx);
    ctx.require("operations", 3000);
    ctx.require("failing system calls", 40);
    ctx.require("reported", 20);
    ctx.require("unchanged writes", 50);
    ctx.finish(
        "exploration",
        "one operation on a file in a random history, checked against an in-memory model of the file (distinct by operation, prior and new content), or a concurrent appending round, or a failing call",
        &["modification times are compared with a backdated one"],
    )
}

fn histories(ctx: &Ctx) {
    parallel(ctx, ctx.n(250, 6000), 8, |i| {
        let mut r = ctx.rng(i as u64);
        let s = Scratch::new("files");
        let names = ["a", "b é", "c.typ"];
        let mut model: Vec<Option<Vec<u8>>> = vec![None; names.len()];
        let mut hist: Vec<String> = vec![];
        for _ in 0..r.range(5, 40) {
            let k = r.below(names.len());
            let p = s.path().join(names[k]);
            let c = if r.chance(1, 3) {
                // Close to the current content: equal, a prefix, an extension, or one byte changed.
                let mut c = model[k].clone().unwrap_or_default();
                match r.below(5) {
                    0 => {}
                    // At the far end.
                    4 => {
                        if let Some(b) = c.last_mut() {
                            *b ^= 1;
                        }
                    }
                    1 => c.truncate(c.len() / 2),
                    2 => c.extend_from_slice(b"+"),
                    _ => {
                        let at = r.below(c.len());
                        if let Some(b) = c.get_mut(at) {
                            *b ^= 1;
                        }
                    }
                }
                c
            } else {
                bytes(&mut r)
            };
            let op = r.below(9);
            let before = model[k].clone();
            let mut bad = None;
            match op {
                0 => {
                    hist.push(format!("write {k} {}", c.len()));
                    if let Err(e) = paths::write(&p, &c) {
                        bad = Some(format!("{e:#}"));
                    }
                    model[k] = Some(c);
                }
                1 | 2 => {
                    hist.push(format!("write_if_changed {k} {}", c.len()));
                    let t = before.is_some().then(|| backdate(&p));
                    let ino = std::fs::metadata(&p).map(|m| m.ino()).ok();
                    if let Err(e) = paths::write_if_changed(&p, &c) {
                        bad = Some(format!("{e:#}"));
                    }
                    if before.as_deref() == Some(&c[..]) {
                        ctx.count("unchanged writes", 1);
                        if mtime(&p) != t {
                            bad = Some("an unchanged file was written".into());
                        }
                    } else if t.is_some() && mtime(&p) == t {
                        bad = Some("a changed file kept its old modification time".into());
                    }
                    if ino.is_some() && ino != std::fs::metadata(&p).map(|m| m.ino()).ok() {
                        bad = Some("write_if_changed replaced the file".into());
                    }
                    model[k] = Some(c);
                }
                3 => {
                    hist.push(format!("append {k} {}", c.len()));
                    if let Err(e) = paths::append(&p, &c) {
                        bad = Some(format!("{e:#}"));
                    }
                    model[k].get_or_insert_with(Vec::new).extend_from_slice(&c);
                    if model[k].as_ref().unwrap().len() > 300_000 && r.chance(1, 2) {
                        if std::fs::read(&p).ok() != model[k] {
                            bad = Some("the file is not what was appended".into());
                        }
                        let _ = std::fs::remove_file(&p);
                        model[k] = None;
                    }
                }
                4 => {
                    hist.push(format!("write_atomic {k} {}", c.len()));
                    if let Err(e) = paths::write_atomic(&p, &c) {
                        bad = Some(format!("{e:#}"));
                    }
                    model[k] = Some(c);
                }
                5 => {
                    let j = r.below(names.len());
                    hist.push(format!("copy {k} -> {j}"));
                    if j != k {
                        match (paths::copy(&p, s.path().join(names[j])), &before) {
                            (Ok(n), Some(b)) if n == b.len() as u64 => model[j] = before.clone(),
                            (Err(_), None) => {}
                            (o, _) => bad = Some(format!("{o:?}")),
                        }
                    }
                }
                6 => {
                    hist.push(format!("create {k}"));
                    if let Err(e) = paths::create(&p) {
                        bad = Some(format!("{e:#}"));
                    }
                    model[k] = Some(vec![]);
                }
                7 => {
                    hist.push(format!("remove_file {k}"));
                    match (paths::remove_file(&p), &before) {
                        (Ok(()), Some(_)) | (Err(_), None) => {}
                        (o, _) => bad = Some(format!("{o:?}")),
                    }
                    model[k] = None;
                }
                _ => {
                    hist.push(format!("open {k}"));
                    if paths::open(&p).is_ok() != before.is_some() {
                        bad = Some("open of a missing or existing file".into());
                    }
                }
            }
            ctx.count("operations", 1);
            ctx.eval(vm_core::h64(&(op, &before, &model[k])), true);
            // What the reading helpers and the plain file system see.
            for (j, n) in names.iter().enumerate() {
                let p = s.path().join(n);
                let want = model[j].as_deref();
                if std::fs::read(&p).ok().as_deref() != want {
                    bad = Some(format!("file {j} does not hold what was written"));
                }
                match (paths::read_bytes(&p), want) {
                    (Ok(b), Some(w)) if b == w => {}
                    (Err(_), None) => {}
                    _ => bad = Some(format!("read_bytes of file {j}")),
                }
                match (paths::read(&p), want.map(std::str::from_utf8)) {
                    (Ok(t), Some(Ok(w))) if t == w => {}
                    (Err(_), None | Some(Err(_))) => {}
                    _ => bad = Some(format!("read of file {j}")),
                }
                match (paths::metadata(&p), want) {
                    (Ok(m), Some(w)) if m.len() == w.len() as u64 => {}
                    (Err(_), None) => {}
                    _ => bad = Some(format!("metadata of file {j}")),
                }
            }
            if let Some(b) = bad {
                ctx.violate(format!("files:{}", hist.last().unwrap().split(' ').next().unwrap()), json!({"case": i, "history": hist, "problem": b}));
                return;
            }
        }
        let left = tree::names(s.path());
        let want: Vec<&str> = names.iter().zip(&model).filter(|(_, m)| m.is_some()).map(|(n, _)| *n).collect();
        if left != want {
            ctx.violate("files:residue", json!({"case": i, "left": left, "expected": want}));
        }
        ctx.sample(|| json!({"history": hist.iter().take(12).collect::<Vec<_>>()}));
    });
}

/// Appends of several threads are all kept, each whole.
fn appenders(ctx: &Ctx) {
    for round in 0..ctx.n(15, 200) {
        let s = Scratch::new("append");
        let p = s.path().join("log");
        std::thread::scope(|sc| {
            for t in 0..5 {
                let p = &p;
                sc.spawn(move || {
                    for k in 0..60 {
                        let l = format!("<{t}:{k}:{}>\n", "y".repeat((t * 37 + k * 11) % 300));
                        let _ = paths::append(p, l.as_bytes());
                    }
                });
            }
        });
        let text = std::fs::read_to_string(&p).unwrap_or_default();
        let mut got: Vec<&str> = text.lines().collect();
        let n = got.len();
        let mut order_ok = true;
        for t in 0..5 {
            let ks: Vec<usize> = got.iter().filter_map(|l| l.strip_prefix(&format!("<{t}:"))?.split(':').next()?.parse().ok()).collect();
            order_ok &= ks == (0..60).collect::<Vec<_>>();
        }
        got.sort();
        got.dedup();
        let whole = got.iter().all(|l| l.starts_with('<') && l.ends_with('>') && l.matches('<').count() == 1);
        ctx.count("concurrent appends", n as u64);
        ctx.eval(vm_core::h64(&("append", round)), true);
        if n != 300 || got.len() != 300 || !whole || !order_ok {
            ctx.violate("files:append", json!({"round": round, "records": n, "distinct": got.len(), "whole": whole, "in order": order_ok}));
        }
    }
}

/// Failing calls say which path failed and change nothing.
fn failures(ctx: &Ctx) {
    let s = Scratch::new("fail");
    let d = s.path();
    std::fs::create_dir_all(d.join("dir/inner")).unwrap();
    std::fs::write(d.join("bin"), b"\xff\xfe").unwrap();
    let before = tree::snap(d);
    let missing = d.join("missing/file-é");
    let dir = d.join("dir");
    let bin = d.join("bin");
    let e = |r: anyhow::Result<()>| r.err().map(|e| format!("{e:#}"));
    let cases: Vec<(&str, &Path, Option<String>)> = vec![
        ("write", &missing, e(paths::write(&missing, "x"))),
        ("write", &dir, e(paths::write(&dir, "x"))),
        ("write_if_changed", &missing, e(paths::write_if_changed(&missing, "x"))),
        ("write_if_changed", &dir, e(paths::write_if_changed(&dir, "x"))),
        ("append", &missing, e(paths::append(&missing, b"x"))),
        ("append", &dir, e(paths::append(&dir, b"x"))),
        ("read", &missing, e(paths::read(&missing).map(drop))),
        ("read", &bin, e(paths::read(&bin).map(drop))),
        ("read_bytes", &missing, e(paths::read_bytes(&missing).map(drop))),
        ("open", &missing, e(paths::open(&missing).map(drop))),
        ("create", &missing, e(paths::create(&missing).map(drop))),
        ("metadata", &missing, e(paths::metadata(&missing).map(drop))),
        ("symlink_metadata", &missing, e(paths::symlink_metadata(&missing).map(drop))),
        ("copy", &missing, e(paths::copy(&missing, d.join("copied")).map(drop))),
        ("copy", &missing, e(paths::copy(&bin, &missing).map(drop))),
        ("remove_file", &missing, e(paths::remove_file(&missing))),
        ("remove_dir", &dir, e(paths::remove_dir(&dir))),
        ("remove_dir", &missing, e(paths::remove_dir(&missing))),
        ("create_dir_all", &bin, e(paths::create_dir_all(bin.join("x")).map_err(|e| e.context(bin.display().to_string())))),
        ("remove_dir_all", &missing, e(paths::remove_dir_all(&missing))),
    ];
    for (op, p, err) in cases {
        ctx.count("failing calls", 1);
        ctx.eval(vm_core::h64(&(op, p.file_name())), true);
        match err {
            None => ctx.violate("files:no-error", json!({"operation": op, "path": p.file_name().map(|f| f.to_string_lossy().into_owned())})),
            Some(m) if !m.contains(&p.display().to_string()) => {
                ctx.violate("files:error-names-path", json!({"operation": op, "path": p, "message": m}))
            }
            _ => {}
        }
    }
    let after = tree::snap(d);
    if before != after {
        ctx.violate("files:failure-changed", json!({"delta": tree::delta(&before, &after)}));
    }
}

/// What the child of [`call_faults`] finds and what it is to make of it.
const OPS: [&str; 9] = ["write", "changed", "unchanged", "changed-new", "append", "create", "copy", "read", "read_bytes"];
fn old() -> Vec<u8> {
    (0..20_000u32).map(|i| b'a' + (i % 23) as u8).collect()
}
fn fresh() -> Vec<u8> {
    (0..9_000u32).map(|i| b'A' + (i % 19) as u8).collect()
}

pub fn child_file(op: &[String]) -> anyhow::Result<i32> {
    let f = Path::new(&op[2]).join("f");
    let src = Path::new(&op[2]).join("src");
    let (old, new) = (old(), fresh());
    let _ = std::fs::File::open(format!("/nonexistent/{}", fault::MARKER));
    match op[1].as_str() {
        "write" => paths::write(&f, &new)?,
        "unchanged" => paths::write_if_changed(&f, &old)?,
        "append" => paths::append(&f, &new)?,
        "create" => drop(paths::create(&f)?),
        "copy" => drop(paths::copy(&src, &f)?),
        "read" => return Ok(if paths::read(&f)?.as_bytes() == old { fault::OK } else { 44 }),
        "read_bytes" => return Ok(if paths::read_bytes(&f)? == old { fault::OK } else { 44 }),
        _ => paths::write_if_changed(&f, &new)?,
    }
    Ok(fault::OK)
}

/// Any system call of an operation may fail: success is not reported unless the work is done.
fn call_faults(ctx: &Ctx) {
    for op in OPS {
        let prepare = |d: &Path| {
            let d = d.join("t");
            std::fs::create_dir_all(&d).unwrap();
            if op != "changed-new" {
                std::fs::write(d.join("f"), old()).unwrap();
            }
            std::fs::write(d.join("src"), fresh()).unwrap();
            d
        };
        let want = match op {
            "unchanged" | "read" | "read_bytes" => old(),
            "append" => [old(), fresh()].concat(),
            "create" => vec![],
            _ => fresh(),
        };
        let sc = Scratch::new("base");
        let d = prepare(sc.path());
        let Ok((End::Ok, trace)) = fault::strace(sc.path(), "b", &["file", op, d.to_str().unwrap()], None) else {
            ctx.inconclusive(format!("no baseline of {op}"));
            continue;
        };
        let Some((a, b)) = fault::op_range(&trace, fault::MARKER) else { continue };
        let points: Vec<(usize, &str)> = (a..=b).flat_map(|n| ["EIO", "ENOSPC", "EINTR"].into_iter().map(move |e| (n, e))).collect();
        parallel(ctx, points.len(), 8, |k| {
            let (n, e) = points[k];
            let Some((call, nth)) = fault::nth_call(&trace, n) else { return };
            if matches!(call.as_str(), "close" | "fcntl") {
                return;
            }
            let sc = Scratch::new("fault");
            let d = prepare(sc.path());
            let inject = format!("{call}:error={e}:when={nth}");
            let Ok((end, _)) = fault::strace(sc.path(), "f", &["file", op, d.to_str().unwrap()], Some(&inject)) else { return };
            ctx.eval(vm_core::h64(&(op, n, e)), true);
            ctx.count("failing system calls", 1);
            let got = std::fs::read(d.join("f")).ok();
            let names = tree::snap(&d).len();
            let bad = match end {
                End::Ok if got.as_ref() != Some(&want) => Some("success was reported, but the work is not done"),
                End::Err => {
                    ctx.count("reported", 1);
                    None
                }
                End::Panicked => Some("panicked"),
                End::Other(44) => Some("other data was read"),
                _ => None,
            };
            if bad.is_some() || names > 3 {
                ctx.violate("files:fault", json!({"operation": op, "fault": inject, "problem": bad, "has": got.map(|g| g.len()), "wanted": want.len(), "files": names}));
            }
        });
    }
}

// ---------------------------------------------------------------- C25

pub fn c25(ctx: &Ctx) -> i32 {
    parallel(ctx, ctx.n(400, 8000), 4, |i| {
        let mut r = ctx.rng(i as u64);
        let s = Scratch::new("tmpin");
        let base = match r.below(3) {
            0 => s.path().join("new/base é"),
            _ => s.path().to_path_buf(),
        };
        std::fs::write(s.path().join("bystander"), b"stay").unwrap();
        if r.chance(1, 2) {
            std::fs::create_dir_all(base.join("kept/sub")).unwrap();
            std::fs::write(base.join("kept/f"), b"k").unwrap();
        }
        let outside = s.path().join("bystander");
        let before = tree::snap(&base);
        let seen: Mutex<Vec<PathBuf>> = Mutex::new(vec![]);
        let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
        let n = r.range(1, 4);
        let hows: Vec<usize> = (0..n).map(|_| r.below(5)).collect();
        let gate = std::sync::Barrier::new(n);
        std::thread::scope(|sc| {
            for (t, how) in hows.iter().enumerate() {
                let (base, seen, bad, outside, gate) = (&base, &seen, &bad, &outside, &gate);
                let _ = std::thread::Builder::new().name(format!("tmp-{i}-{t}")).spawn_scoped(sc, move || {
                    let res = guard(|| {
                        paths::temp_dir_in(base, |d| {
                            if d.parent() != Some(base.as_path()) {
                                bad.lock().unwrap().push(format!("{d:?} is not directly in {base:?}"));
                            }
                            if !d.is_dir() || !tree::names(d).is_empty() {
                                bad.lock().unwrap().push(format!("{d:?} is not an empty directory"));
                            }
                            seen.lock().unwrap().push(d.to_path_buf());
                            gate.wait();
                            std::fs::create_dir_all(d.join("x/y")).unwrap();
                            std::fs::write(d.join("x/f"), vec![7; 5000]).unwrap();
                            let _ = symlink(outside, d.join("link"));
                            let _ = symlink("..", d.join("up"));
                            std::fs::write(d.join(".hidden"), b"1").unwrap();
                            tree::chmod(&d.join("x/f"), 0o444);
                            match how {
                                0 | 1 => Ok(4242 + t),
                                2 => anyhow::bail!("own error {t}"),
                                3 => std::panic::panic_any(format!("vm-expected-panic {t}")),
                                _ => {
                                    // The callback may remove it itself.
                                    std::fs::remove_dir_all(d).unwrap();
                                    Ok(4242 + t)
                                }
                            }
                        })
                    });
                    let ok = match (how, &res) {
                        (0 | 1 | 4, Ok(Ok(v))) => *v == 4242 + t,
                        (2, Ok(Err(e))) => format!("{e:#}").contains(&format!("own error {t}")),
                        (3, Err(p)) => p.msg.contains(&format!("vm-expected-panic {t}")),
                        _ => false,
                    };
                    if !ok {
                        bad.lock().unwrap().push(format!("way {how}: the callback's outcome was not passed on: {res:?}"));
                    }
                });
            }
        });
        let mut seen = seen.into_inner().unwrap();
        let total = seen.len();
        seen.sort();
        seen.dedup();
        let mut bad = bad.into_inner().unwrap();
        if seen.len() != total || total != n {
            bad.push(format!("{n} calls used {} directories", seen.len()));
        }
        let mut after = tree::snap(&base);
        if before.is_empty() && after.len() == 1 {
            after.clear();
        }
        if before != after {
            bad.push(format!("left behind: {:?}", tree::delta(&before, &after)));
        }
        if std::fs::read(&outside).ok().as_deref() != Some(&b"stay"[..]) {
            bad.push("a linked file outside changed".into());
        }
        ctx.count("temporary directories", total as u64);
        ctx.eval(vm_core::h64(&(&hows, before.len())), true);
        ctx.sample(|| json!({"ways": hows, "preexisting": before.len()}));
        if !bad.is_empty() {
            bad.truncate(5);
            ctx.violate("tempdir", json!({"case": i, "ways (0,1,4 ok, 2 error, 3 panic)": hows, "problems": bad}));
        }
    });
    ctx.require("temporary directories", 200);
    // The base cannot be created.
    let s = Scratch::new("tmpin");
    std::fs::write(s.path().join("file"), b"f").unwrap();
    let mut ran = false;
    let r = paths::temp_dir_in(s.path().join("file/sub"), |_| {
        ran = true;
        Ok(())
    });
    if r.is_ok() || ran {
        ctx.violate("tempdir:impossible base", json!({"ran": ran}));
    }
    ctx.finish(
        "exploration",
        "one round of concurrent temp_dir_in calls with given outcomes of their callbacks over a given base; distinct by outcomes and base contents",
        &["leaks after a kill are documented and not claimed"],
    )
}

// ---------------------------------------------------------------- C26

const TAG: &str = "CACHEDIR.TAG";
const SIG: &str = "Signature: 8a477f597d28d172789f06886806bc55";

fn tagged(p: &Path) -> bool {
    std::fs::read_to_string(p.join(TAG)).is_ok_and(|t| t.starts_with(SIG) && t.ends_with('\n'))
}

pub fn child_cachedir(op: &[String]) -> anyhow::Result<i32> {
    let _ = std::fs::File::open(format!("/nonexistent/{}", fault::MARKER));
    paths::create_dir_all_excluded_from_backups_atomic(Path::new(&op[1]))?;
    Ok(fault::OK)
}

pub fn c26(ctx: &Ctx) -> i32 {
    // Concurrent creation.
    parallel(ctx, ctx.n(400, 8000), 2, |i| {
        let mut r = ctx.rng(i as u64);
        let s = Scratch::new("cache");
        let parent = s.path().join(["p", "p/q/é", "p/q/r/s"][r.below(3)]);
        let dir = parent.join(["target", ".cache", "t t"][r.below(3)]);
        let pre = r.below(4);
        match pre {
            0 => {
                std::fs::create_dir_all(&dir).unwrap();
                std::fs::write(dir.join("mine"), b"m").unwrap();
            }
            1 => std::fs::create_dir_all(&parent).unwrap(),
            _ => {}
        }
        let before = tree::snap(&dir);
        let n = r.range(1, 6);
        let stop = std::sync::atomic::AtomicBool::new(false);
        let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            let obs = sc.spawn(|| {
                let mut looks = 0u64;
                while !stop.load(std::sync::atomic::Ordering::SeqCst) {
                    looks += 1;
                    // A directory that is there is tagged (it appears in one step).
                    if pre != 0 && dir.is_dir() && !tagged(&dir) {
                        bad.lock().unwrap().push("the directory was visible without its tag".into());
                    }
                }
                looks
            });
            let hs: Vec<_> = (0..n)
                .map(|_| sc.spawn(|| paths::create_dir_all_excluded_from_backups_atomic(&dir).map_err(|e| format!("{e:#}"))))
                .collect();
            for h in hs {
                match h.join() {
                    Ok(Ok(())) => {}
                    o => bad.lock().unwrap().push(format!("call: {o:?}")),
                }
            }
            stop.store(true, std::sync::atomic::Ordering::SeqCst);
            if let Ok(l) = obs.join() {
                ctx.count("looks", l);
            }
        });
        let mut bad = bad.into_inner().unwrap();
        if pre == 0 {
            if tree::snap(&dir) != before {
                bad.push("an existing directory was altered".into());
            }
        } else if !tagged(&dir) {
            bad.push("not tagged in the end".into());
        }
        // Idempotent: nothing changes when called again, even over foreign contents.
        let _ = std::fs::write(dir.join("later"), b"l");
        let b2 = tree::snap(s.path());
        let again = paths::create_dir_all_excluded_from_backups_atomic(&dir);
        if again.is_err() || tree::snap(s.path()) != b2 {
            bad.push(format!("calling again: {again:?}"));
        }
        if tree::names(&parent).len() != 1 {
            bad.push(format!("left behind: {:?}", tree::names(&parent)));
        }
        ctx.count("creations", n as u64);
        ctx.eval(vm_core::h64(&(pre, n, &dir.file_name(), parent.components().count())), true);
        ctx.sample(|| json!({"preexisting": pre == 0, "callers": n}));
        if !bad.is_empty() {
            bad.truncate(5);
            ctx.violate("cachedir", json!({"case": i, "preexisting": pre == 0, "callers": n, "problems": bad}));
        }
    });
    // Crash points.
    let base = Scratch::new("cachetrace");
    let p = base.path().join("p/target");
    match fault::strace(base.path(), "b", &["cachedir", p.to_str().unwrap()], None) {
        Ok((End::Ok, trace)) => {
            let (a, b) = fault::op_range(&trace, fault::MARKER).unwrap_or((1, 0));
            for n in a..=b {
                for parent_there in [false, true] {
                    let Some((call, nth)) = fault::nth_call(&trace, n) else { continue };
                    let sc = Scratch::new("cachecrash");
                    let dir = sc.path().join("p/target");
                    if parent_there {
                        std::fs::create_dir_all(sc.path().join("p")).unwrap();
                    }
                    let Ok((end, _)) = fault::strace(sc.path(), "k", &["cachedir", dir.to_str().unwrap()], Some(&format!("{call}:signal=SIGKILL:when={nth}"))) else { continue };
                    ctx.eval(vm_core::h64(&("crash", n, parent_there)), true);
                    if end == End::Killed(9) {
                        ctx.count("crash points", 1);
                    }
                    if dir.exists() && !tagged(&dir) {
                        ctx.violate("cachedir:crash", json!({"killed at": format!("{call} #{nth}"), "problem": "the directory exists without a complete tag"}));
                    }
                    // The next run succeeds whatever the crash left behind.
                    let again = paths::create_dir_all_excluded_from_backups_atomic(&dir);
                    if again.is_err() || !tagged(&dir) {
                        ctx.violate("cachedir:after-crash", json!({"killed at": format!("{call} #{nth}"), "result": format!("{again:?}")}));
                    }
                }
            }
        }
        Ok((e, _)) => ctx.violate("cachedir:plain", json!({"outcome": format!("{e:?}")})),
        Err(e) => ctx.inconclusive(e),
    }
    // Success means that the directory is there.
    let s = Scratch::new("cachefile");
    std::fs::write(s.path().join("file"), b"f").unwrap();
    let before = tree::snap(s.path());
    for p in [s.path().join("file"), s.path().join("file/sub")] {
        let r = paths::create_dir_all_excluded_from_backups_atomic(&p).map_err(|e| format!("{e:#}"));
        ctx.eval(vm_core::h64(&("blocked", p.file_name())), true);
        if r.is_ok() && !p.is_dir() {
            ctx.violate("cachedir:not-a-directory", json!({"problem": "success is reported although no such directory exists (a file is in the way)"}));
        }
        let after = tree::snap(s.path());
        if before != after {
            ctx.violate("cachedir:blocked", json!({"delta": tree::delta(&before, &after)}));
        }
    }
    // Marking an existing directory keeps its tag and everything else.
    let d = s.path().join("m");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("x"), b"x").unwrap();
    paths::exclude_from_backups_and_indexing(&d);
    let t1 = tree::snap(&d);
    if !tagged(&d) || t1.len() != 3 {
        ctx.violate("cachedir:mark", json!({"tree": tree::names(&d)}));
    }
    std::fs::write(d.join(TAG), b"own tag").unwrap();
    paths::exclude_from_backups_and_indexing(&d);
    if std::fs::read(d.join(TAG)).ok().as_deref() != Some(&b"own tag"[..]) {
        ctx.violate("cachedir:own-tag", json!({"problem": "an existing tag was overwritten"}));
    }
    ctx.require("creations", 300);
    ctx.require("crash points", 8);
    ctx.finish(
        "exploration",
        "a round of concurrent creations over a given prior state, or a crash point (a system call at which the process is killed)",
        &["parents are not covered by the atomicity, as documented"],
    )
}

// ---------------------------------------------------------------- C27

pub fn c27(ctx: &Ctx) -> i32 {
    let other = other_device();
    parallel(ctx, ctx.n(1500, 30000), 8, |i| {
        let mut r = ctx.rng(i as u64);
        let s = Scratch::new("link");
        let root = s.path();
        let d = root.join("dst dir");
        std::fs::create_dir_all(d.join("sub/deep")).unwrap();
        let far = other.as_ref().filter(|_| r.chance(1, 5)).map(|o| o.path().join(format!("far{i}")));
        let src_dir = r.chance(1, 4);
        let src = match (&far, r.below(3)) {
            (Some(f), _) => f.clone(),
            (_, 0) => d.join("sub/deep/src"),
            (_, 1) => d.join("src é"),
            _ => root.join("src"),
        };
        let body = bytes(&mut r);
        if src_dir {
            std::fs::create_dir_all(src.join("k")).unwrap();
            std::fs::write(src.join("k/f"), &body).unwrap();
        } else {
            std::fs::write(&src, &body).unwrap();
            tree::chmod(&src, *r.pick(&[0o644, 0o600, 0o755, 0o444]));
        }
        let dst = d.join("dst");
        let victim = root.join("victim");
        std::fs::write(&victim, b"victim").unwrap();
        let state = r.below(8);
        match state {
            0 => {}
            1 => std::fs::write(&dst, b"previous content of the destination").unwrap(),
            2 => symlink(root.join("nowhere"), &dst).unwrap(),
            3 => symlink(&victim, &dst).unwrap(),
            4 => symlink(&src, &dst).unwrap(),
            5 if !src_dir && far.is_none() => std::fs::hard_link(&src, &dst).unwrap(),
            6 => {
                std::fs::create_dir_all(dst.join("full")).unwrap();
            }
            7 => {
                std::fs::write(&dst, b"ro").unwrap();
                tree::chmod(&dst, 0o444);
            }
            _ => {}
        }
        let state_name = ["absent", "file", "broken link", "link to another file", "link to the source", "hard link to the source", "directory", "read-only file"][state];
        let before_src = tree::snap(&src);
        let before_dst = tree::snap(&dst);
        let res = paths::link_or_copy(&src, &dst);
        ctx.count("links", 1);
        if far.is_some() {
            ctx.count("across devices", 1);
        }
        ctx.eval(vm_core::h64(&(state, src_dir, far.is_some(), src.starts_with(&d), body.len())), true);
        let mut bad: Vec<String> = vec![];
        if tree::snap(&src) != before_src {
            bad.push("the source changed".into());
        }
        if std::fs::read(&victim).ok().as_deref() != Some(&b"victim"[..]) {
            bad.push("the file behind an old link changed".into());
        }
        if state == 6 {
            if res.is_ok() || tree::snap(&dst) != before_dst {
                bad.push("a directory in the way was replaced".into());
            }
        } else if src_dir {
            let same = std::fs::canonicalize(&dst).ok() == std::fs::canonicalize(&src).ok();
            let kind = std::fs::symlink_metadata(&dst).is_ok_and(|m| m.file_type().is_symlink());
            if res.is_err() || !same || !kind || std::fs::read(dst.join("k/f")).ok() != Some(body.clone()) {
                bad.push(format!("the directory is not reachable through the link: {res:?}"));
            }
            // A source below the destination's parent is linked relatively, so that the tree can be moved.
            if res.is_ok() && state != 4 && src.starts_with(&d) {
                let moved = root.join("moved");
                std::fs::rename(&d, &moved).unwrap();
                if std::fs::read(moved.join("dst/k/f")).ok() != Some(body.clone()) {
                    bad.push("the link breaks when the tree is moved".into());
                }
            }
        } else {
            if res.is_err() || std::fs::read(&dst).ok() != Some(body.clone()) {
                bad.push(format!("the destination does not have the source's content: {res:?}"));
            }
            let (a, b) = (std::fs::metadata(&src).ok(), std::fs::metadata(&dst).ok());
            if let (Some(a), Some(b)) = (a, b) {
                let same = (a.dev(), a.ino()) == (b.dev(), b.ino());
                if far.is_none() && !same {
                    bad.push("not linked although both are on one device".into());
                }
                if far.is_some() && same && state != 4 {
                    bad.push("a link across devices".into());
                }
                if a.mode() & 0o777 != b.mode() & 0o777 {
                    bad.push("permissions differ".into());
                }
            }
            if (state == 4 || (state == 5 && far.is_none() && !src_dir)) && tree::snap(&dst) != before_dst {
                bad.push("the same file was linked onto itself".into());
            }
        }
        if let Some(f) = &far {
            if src_dir {
                let _ = std::fs::remove_dir_all(f);
            } else {
                let _ = std::fs::remove_file(f);
            }
        }
        ctx.sample(|| json!({"destination": state_name, "source is a directory": src_dir, "across devices": far.is_some()}));
        if !bad.is_empty() {
            ctx.violate("link", json!({"case": i, "destination": state_name, "source is a directory": src_dir, "across devices": far.is_some(), "problems": bad}));
        }
    });
    // A missing source is an error.
    let s = Scratch::new("link");
    let r = paths::link_or_copy(s.path().join("none"), s.path().join("dst"));
    if r.is_ok() || !tree::names(s.path()).is_empty() {
        ctx.violate("link:missing", json!({"result": format!("{r:?}")}));
    }
    ctx.require("links", 500);
    ctx.finish(
        "exploration",
        "one call over a given prior destination, kind and place of the source; distinct by these and the size",
        &["a second device is /dev/shm, where there is one"],
    )
}

fn other_device() -> Option<Scratch> {
    let p = Path::new("/dev/shm");
    let here = std::env::temp_dir();
    let (a, b) = (std::fs::metadata(p).ok()?, std::fs::metadata(here).ok()?);
    if a.dev() == b.dev() {
        return None;
    }
    let d = p.join(format!("vm-far-{}", std::process::id()));
    std::fs::create_dir_all(&d).ok()?;
    Some(Scratch(d))
}
