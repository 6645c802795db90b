//! C20, C21: atomic file replacement.

use crate::fault::{self, End};
use crate::tree;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use tinymist_std::fs::paths;
use vm_core::{json, parallel, Ctx, Rng, Scratch};

/// A self-describing content: its id can be read back, and any torn copy is recognised.
pub fn content(id: u64, len: usize) -> Vec<u8> {
    let mut v = format!("<{id}:{len}>").into_bytes();
    let mut r = Rng::new(id ^ 0x5151);
    while v.len() < len {
        v.extend_from_slice(&r.u64().to_le_bytes());
    }
    v.truncate(len.max(format!("<{id}:{len}>").len()));
    v
}

pub fn id_of(b: &[u8]) -> Option<u64> {
    let end = b.iter().position(|c| *c == b'>')?;
    let head = std::str::from_utf8(b.get(1..end)?).ok()?;
    let (id, len) = head.split_once(':')?;
    let (id, len) = (id.parse().ok()?, len.parse().ok()?);
    (content(id, len) == b).then_some(id)
}

pub fn child(op: &[String]) -> anyhow::Result<()> {
    // child write_atomic PATH ID LEN
    let (id, len): (u64, usize) = (op[2].parse()?, op[3].parse()?);
    let c = content(id, len);
    let _ = std::fs::File::open(format!("/nonexistent/{}", fault::MARKER));
    paths::write_atomic(Path::new(&op[1]), &c)
}

const LENS: [usize; 8] = [0, 1, 100, 4096, 8191, 70_000, 300_000, 2_000_000];

const HUGE: [usize; 3] = [5_000_000, 17_000_000, 40_000_000];

// ---------------------------------------------------------------- C20

pub fn c20(ctx: &Ctx) -> i32 {
    concurrent(ctx);
    crash_points(ctx);
    ctx.require("concurrent reads", 2000);
    ctx.require("concurrent writes", 200);
    ctx.require("crash points", 25);
    ctx.finish(
        "exploration",
        "a round of concurrent writers and readers of one file, or one crash point (a system call of the operation at which the process is killed); distinct by round parameters or by (scenario, system call)",
        &["strace kills at system-call boundaries", "a crash of the process, not of the machine: nothing about fsync is claimed"],
    )
}

/// Readers check that the file is a register: always one whole value, never older than what was surely overwritten.
fn concurrent(ctx: &Ctx) {
    let rounds = ctx.n(300, 4000);
    parallel(ctx, rounds, 3, |i| {
        let mut r = ctx.rng(i as u64);
        let s = Scratch::new("atomic");
        let deep = s.path().join("d é").join("😀");
        std::fs::create_dir_all(&deep).unwrap();
        let name = ["out.pdf", "文件 x.typ", ".hidden", "a", "-dash", "with\nnewline"][r.below(6)];
        let path = deep.join(name);
        // What is there before: nothing, a plain file, one with further names, a link to a file, odd permissions.
        let kind = *r.pick(&[Old::Absent, Old::Plain, Old::Plain, Old::HardLinked, Old::Linked, Old::Mode(0o444), Old::Mode(0o731)]);
        let existing = kind != Old::Absent;
        let aside = s.path().join("aside");
        std::fs::create_dir_all(&aside).unwrap();
        let big = r.chance(1, 4);
        let huge = i % 150 == 7;
        let writers = r.range(1, 4);
        let per = if huge { 2 } else { r.range(4, if big { 6 } else { 25 }) };
        let clock = AtomicU64::new(1);
        // (id, start, end)
        let writes: Mutex<Vec<(u64, u64, u64)>> = Mutex::new(vec![]);
        let reads: Mutex<Vec<(Option<u64>, u64, u64)>> = Mutex::new(vec![]);
        let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
        if existing {
            kind.make(&path, &aside, &content(1, 500));
            writes.lock().unwrap().push((1, 0, 0));
        }
        let done = AtomicBool::new(false);
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for w in 0..writers {
                let mut r = ctx.rng((i * 16 + w) as u64 ^ 0xbeef_0000);
                let (path, clock, writes, bad, aside) = (&path, &clock, &writes, &bad, &aside);
                hs.push(sc.spawn(move || {
                    for k in 0..per {
                        let id = 1000 + (w * 1000 + k) as u64;
                        let len = if huge { *r.pick(&HUGE) } else if big { *r.pick(&LENS) } else { LENS[r.below(5)] };
                        let c = content(id, len);
                        if kind == Old::HardLinked {
                            // The current file gets a second name.
                            let other = aside.join(format!("w{w}-{k}"));
                            let _ = std::fs::hard_link(path, &other);
                        }
                        let a = clock.fetch_add(1, SeqCst);
                        let res = paths::write_atomic(path, &c);
                        let b = clock.fetch_add(1, SeqCst);
                        match res {
                            Ok(()) => writes.lock().unwrap().push((id, a, b)),
                            Err(e) => bad.lock().unwrap().push(format!("write {id} failed: {e:#}")),
                        }
                        if r.chance(1, 8) {
                            std::thread::yield_now();
                        }
                    }
                }));
            }
            for slow in [false, true] {
                let (path, clock, reads, bad, done) = (&path, &clock, &reads, &bad, &done);
                sc.spawn(move || {
                    let mut seen = false;
                    for _ in 0..20_000 {
                        let a = clock.fetch_add(1, SeqCst);
                        let got = if slow { read_slowly(path) } else { std::fs::read(path) };
                        let b = clock.fetch_add(1, SeqCst);
                        match got {
                            Ok(bytes) => {
                                seen = true;
                                match id_of(&bytes) {
                                    Some(id) => reads.lock().unwrap().push((Some(id), a, b)),
                                    None => bad.lock().unwrap().push(format!(
                                        "a reader saw {} bytes that nobody wrote as a whole: {:?}",
                                        bytes.len(),
                                        String::from_utf8_lossy(&bytes[..bytes.len().min(40)])
                                    )),
                                }
                            }
                            Err(e) if e.kind() == std::io::ErrorKind::NotFound => {
                                if seen || existing {
                                    bad.lock().unwrap().push("the file was absent after it had existed".into());
                                }
                                reads.lock().unwrap().push((None, a, b));
                            }
                            Err(e) => bad.lock().unwrap().push(format!("reader: {e}")),
                        }
                        if done.load(SeqCst) {
                            break;
                        }
                    }
                });
            }
            for h in hs {
                let _ = h.join();
            }
            done.store(true, SeqCst);
        });
        let mut writes = writes.into_inner().unwrap();
        let reads = reads.into_inner().unwrap();
        let mut bad = bad.into_inner().unwrap();
        ctx.count("concurrent writes", writes.len() as u64);
        ctx.count("concurrent reads", reads.len() as u64);
        // Register check: the value read was not written after the read, nor surely overwritten before it.
        writes.sort();
        for (v, a, b) in &reads {
            let Some(v) = v else {
                // Absent: no write had completed before.
                if writes.iter().any(|w| w.2 < *a && w.2 > 0) {
                    bad.push("the file was absent after a completed write".into());
                }
                continue;
            };
            let Some(w) = writes.iter().find(|w| w.0 == *v) else {
                bad.push(format!("value {v} of a write that did not succeed"));
                continue;
            };
            if w.1 > *b {
                bad.push(format!("value {v} read before it was written"));
            }
            if let Some(o) = writes.iter().find(|o| o.1 > w.2 && o.2 < *a) {
                bad.push(format!("value {v} read after it had been replaced by {}", o.0));
            }
        }
        // In the end the file holds one of the writes not followed by another, and nothing else is left behind.
        match std::fs::read(&path).ok().and_then(|b| id_of(&b)) {
            Some(v) => {
                let w = writes.iter().find(|w| w.0 == v);
                if w.is_none_or(|w| writes.iter().any(|o| o.1 > w.2)) {
                    bad.push(format!("the last value is {v}, which a later write had replaced"));
                }
            }
            None => bad.push("the file is broken in the end".into()),
        }
        let left = tree::names(&deep);
        if left != [name.to_string()] {
            bad.push(format!("left behind: {left:?}"));
        }
        // A second name keeps one whole content as well.
        for n in tree::names(&aside) {
            let got = std::fs::read(aside.join(&n)).unwrap_or_default();
            if kind != Old::Linked && id_of(&got).is_none() {
                bad.push(format!("the content under another name of an old file ({n}) was torn"));
            }
        }
        ctx.count(kind.name(), 1);
        ctx.eval(vm_core::h64(&(i, writers, per, kind.name(), big)), !reads.is_empty());
        ctx.sample(|| json!({"round": i, "writers": writers, "writes": writes.len(), "reads": reads.len()}));
        if !bad.is_empty() {
            bad.truncate(5);
            ctx.violate("atomic:concurrent", json!({"round": i, "problems": bad}));
        }
    });
}

/// The kind of the file to be replaced.
#[derive(Clone, Copy, PartialEq)]
enum Old {
    Absent,
    Plain,
    /// With a second name in another directory.
    HardLinked,
    /// A symbolic link to a file in another directory.
    Linked,
    Mode(u32),
}

impl Old {
    fn name(self) -> &'static str {
        match self {
            Old::Absent => "replaced: nothing",
            Old::Plain => "replaced: a plain file",
            Old::HardLinked => "replaced: a file with several names",
            Old::Linked => "replaced: a link to a file",
            Old::Mode(_) => "replaced: a file with other permissions",
        }
    }
    fn make(self, path: &Path, aside: &Path, bytes: &[u8]) {
        match self {
            Old::Absent => (),
            Old::Plain => std::fs::write(path, bytes).unwrap(),
            Old::HardLinked => {
                std::fs::write(path, bytes).unwrap();
                std::fs::hard_link(path, aside.join("first")).unwrap();
            }
            Old::Linked => {
                std::fs::write(aside.join("target"), bytes).unwrap();
                std::os::unix::fs::symlink(aside.join("target"), path).unwrap();
            }
            Old::Mode(m) => {
                std::fs::write(path, bytes).unwrap();
                tree::chmod(path, m);
            }
        }
    }
}

/// Reads an opened file in two parts with a pause: a file that is replaced meanwhile stays as it was when opened.
fn read_slowly(path: &Path) -> std::io::Result<Vec<u8>> {
    use std::io::Read;
    let mut f = std::fs::File::open(path)?;
    let mut all = vec![];
    (&mut f).take(50).read_to_end(&mut all)?;
    std::thread::sleep(std::time::Duration::from_micros(200));
    f.read_to_end(&mut all)?;
    Ok(all)
}

struct Scenario {
    old: Option<(u64, usize, u32)>,
    kind: Old,
    new: (u64, usize),
}

fn scenarios() -> Vec<Scenario> {
    vec![
        Scenario { old: Some((1, 5000, 0o644)), kind: Old::Plain, new: (2, 100) },
        Scenario { old: Some((1, 100, 0o600)), kind: Old::Plain, new: (2, 9000) },
        Scenario { old: None, kind: Old::Absent, new: (2, 3000) },
        Scenario { old: Some((1, 40_000, 0o755)), kind: Old::Plain, new: (2, 1_500_000) },
        Scenario { old: Some((1, 10, 0o444)), kind: Old::Plain, new: (2, 0) },
        // The same length.
        Scenario { old: Some((1, 4096, 0o644)), kind: Old::Plain, new: (2, 4096) },
        Scenario { old: Some((1, 6000, 0o640)), kind: Old::HardLinked, new: (2, 200) },
        Scenario { old: Some((1, 70, 0o644)), kind: Old::HardLinked, new: (2, 20_000) },
        Scenario { old: Some((1, 6000, 0o604)), kind: Old::Linked, new: (2, 300) },
    ]
}

fn prepare(s: &Scenario, dir: &Path) -> PathBuf {
    let path = dir.join("out.pdf");
    if let Some((id, len, mode)) = s.old {
        let aside = dir.with_extension("aside");
        std::fs::create_dir_all(&aside).unwrap();
        s.kind.make(&path, &aside, &content(id, len));
        tree::chmod(&path, mode);
    }
    path
}

/// Learns the operation's system calls from an undisturbed run.
fn baseline(ctx: &Ctx, s: &Scenario) -> Option<(Vec<String>, usize, usize)> {
    let sc = Scratch::new("trace");
    let d = sc.path().join("t");
    std::fs::create_dir_all(&d).unwrap();
    let path = prepare(s, &d);
    let (id, len) = s.new;
    let r = fault::strace(sc.path(), "base", &["write_atomic", path.to_str().unwrap(), &id.to_string(), &len.to_string()], None);
    match r {
        Ok((End::Ok, trace)) => {
            let Some((a, b)) = fault::op_range(&trace, fault::MARKER) else {
                ctx.inconclusive("no marker in the trace");
                return None;
            };
            Some((trace, a, b))
        }
        Ok((e, _)) => {
            ctx.violate("atomic:plain-write", json!({"outcome": format!("{e:?}"), "new": s.new}));
            None
        }
        Err(e) => {
            ctx.inconclusive(e);
            None
        }
    }
}

fn crash_points(ctx: &Ctx) {
    for (si, s) in scenarios().iter().enumerate() {
        let Some((trace, a, b)) = baseline(ctx, s) else { continue };
        let reps = ctx.n(1, 6);
        parallel(ctx, (b + 1 - a) * reps, 8, |k| {
            let n = a + k / reps;
            let Some((call, nth)) = fault::nth_call(&trace, n) else { return };
            let sc = Scratch::new("crash");
            let d = sc.path().join("t");
            std::fs::create_dir_all(&d).unwrap();
            let path = prepare(s, &d);
            let (id, len) = s.new;
            let r = fault::strace(
                sc.path(),
                "k",
                &["write_atomic", path.to_str().unwrap(), &id.to_string(), &len.to_string()],
                Some(&format!("{call}:signal=SIGKILL:when={nth}")),
            );
            let Ok((end, _)) = r else { return };
            ctx.eval(vm_core::h64(&(si, n)), end == End::Killed(9));
            if end == End::Killed(9) {
                ctx.count("crash points", 1);
            }
            let now = std::fs::read(&path).ok();
            let old = s.old.map(|(id, len, _)| content(id, len));
            let new = Some(content(id, len));
            ctx.sample(|| json!({"scenario": si, "killed at": format!("{call} #{nth}"), "end": format!("{end:?}"),
                "file": if now == new { "new" } else if now == old { "old" } else { "?" }}));
            if now != new && now != old {
                ctx.violate(
                    "atomic:crash",
                    json!({"scenario": si, "killed at": format!("{call} #{nth}"), "end": format!("{end:?}"),
                        "found": now.map(|b| (b.len(), String::from_utf8_lossy(&b[..b.len().min(40)]).into_owned())),
                        "expected": "either the complete old or the complete new content"}),
                );
            }
        });
    }
}

// ---------------------------------------------------------------- C21

pub fn c21(ctx: &Ctx) -> i32 {
    modes(ctx);
    shapes(ctx);
    faults(ctx);
    ctx.require("modes", 512);
    ctx.require("faults", 30);
    ctx.require("failed cleanly", 10);
    ctx.finish(
        "exploration",
        "one replacement with given permission bits, umask and path shape, or one failing system call of the operation; distinct by these",
        &["runs as root: permission refusals are injected"],
    )
}

/// All nine permission bits, under several umasks (the umask is process-wide: one thread).
fn modes(ctx: &Ctx) {
    let s = Scratch::new("mode");
    let mut r = ctx.rng(77);
    for umask in [0o022, 0o000, 0o077, 0o027] {
        // SAFETY: no other thread of this process creates files now.
        unsafe { libc::umask(umask) };
        for mode in 0..0o1000u32 {
            if umask != 0o022 && ctx.tier == vm_core::Tier::Quick && mode % 7 != 0 {
                continue;
            }
            let p = s.path().join("f");
            let _ = std::fs::remove_file(&p);
            std::fs::write(&p, content(1, r.below(200))).unwrap();
            tree::chmod(&p, mode);
            let new = content(2 + mode as u64, r.below(200));
            let res = paths::write_atomic(&p, &new);
            ctx.count("modes", 1);
            ctx.eval(vm_core::h64(&(umask, mode)), true);
            let after = tree::mode(&p);
            if res.is_err() || std::fs::read(&p).ok().as_deref() != Some(&new[..]) {
                ctx.violate("atomic:mode-content", json!({"mode": format!("{mode:o}"), "result": format!("{res:?}")}));
            } else if after != Some(mode) {
                ctx.violate(
                    "atomic:mode",
                    json!({"umask": format!("{umask:o}"), "before": format!("{mode:o}"), "after": after.map(|m| format!("{m:o}"))}),
                );
            }
        }
        // A new file is for its owner only (nobody gains access that was not granted).
        let p = s.path().join(format!("new-{umask:o}"));
        let res = paths::write_atomic(&p, b"x");
        let m = tree::mode(&p);
        if res.is_err() || m.is_none_or(|m| m & 0o177 != 0 || m & 0o600 != 0o600 & !(umask as u32)) {
            ctx.violate("atomic:new-mode", json!({"umask": format!("{umask:o}"), "mode": m.map(|m| format!("{m:o}"))}));
        }
    }
    unsafe { libc::umask(0o022) };
}

/// Odd paths: relative ones, missing or wrong parents, directories, long names.
fn shapes(ctx: &Ctx) {
    let sc = Scratch::new("shape");
    let d = sc.path();
    let check = |name: &str, ok: bool, d: Option<&serde_json::Value>| {
        ctx.eval(vm_core::h64(&name), true);
        ctx.count("shapes", 1);
        if !ok {
            ctx.violate(format!("atomic:shape:{name}"), json!({"case": name, "detail": d}));
        }
    };
    // Relative paths, resolved against the current directory.
    let rel = d.join("rel");
    std::fs::create_dir_all(rel.join("sub")).unwrap();
    for p in ["plain.txt", "./dot.txt", "sub/in.txt", "sub/../up.txt"] {
        let (end, _) = fault::child_wait(&["write_atomic", p, "7", "900"], Some(&rel));
        let got = std::fs::read(rel.join(p)).ok();
        check(&format!("relative {p}"), end == End::Ok && got == Some(content(7, 900)), Some(&json!(format!("{end:?}"))));
    }
    check("relative leaves nothing behind", tree::names(&rel) == ["dot.txt", "plain.txt", "sub", "up.txt"], Some(&json!(tree::names(&rel))));
    // Failures change nothing.
    let fail = d.join("fail");
    std::fs::create_dir_all(fail.join("dir").join("inner")).unwrap();
    std::fs::write(fail.join("file"), b"file").unwrap();
    let before = tree::snap(&fail);
    for p in [fail.join("missing/x"), fail.join("file/x"), fail.join("dir"), fail.join("n".repeat(300))] {
        // (The error owns the temporary file until it is dropped.)
        let res = paths::write_atomic(&p, b"content").map_err(|e| format!("{e:#}"));
        let after = tree::snap(&fail);
        check(
            &format!("failing {:?}", p.file_name().map(|n| n.len())),
            res.is_err() && before == after,
            Some(&json!({"result": format!("{res:?}"), "delta": tree::delta(&before, &after)})),
        );
    }
    // Long but valid names, odd characters.
    for n in ["a".repeat(200), "é".repeat(100), "x y".into(), "*?\"<>|".into(), "..a".into(), "%s%n".into()] {
        let p = d.join(&n);
        let res = paths::write_atomic(&p, n.as_bytes());
        check(&format!("name of {} bytes {:.10}", n.len(), n), res.is_ok() && std::fs::read(&p).ok() == Some(n.clone().into_bytes()), None);
    }
    // Other links to the old file keep the old content: the file is replaced, not overwritten.
    let (p, q) = (d.join("linked"), d.join("other-link"));
    std::fs::write(&p, b"old").unwrap();
    std::fs::hard_link(&p, &q).unwrap();
    let mut open = std::fs::File::open(&p).unwrap();
    let res = paths::write_atomic(&p, b"new");
    let mut held = String::new();
    let _ = std::io::Read::read_to_string(&mut open, &mut held);
    check(
        "replaced, not overwritten",
        res.is_ok() && std::fs::read(&p).unwrap() == b"new" && std::fs::read(&q).unwrap() == b"old" && held == "old",
        Some(&json!(held)),
    );
}

fn faults(ctx: &Ctx) {
    for (si, s) in scenarios().iter().enumerate() {
        let Some((trace, a, b)) = baseline(ctx, s) else { continue };
        let errs: Vec<(usize, &str)> = (a..=b)
            .flat_map(|n| ["ENOSPC", "EIO", "EACCES", "EMFILE"].into_iter().map(move |e| (n, e)))
            .filter(|(n, e)| ctx.tier == vm_core::Tier::Thorough || (n + e.len() + si) % 2 == 0)
            .collect();
        parallel(ctx, errs.len(), 8, |k| {
            let (n, e) = errs[k];
            let Some((call, nth)) = fault::nth_call(&trace, n) else { return };
            if matches!(call.as_str(), "read" | "getdents64" | "lseek" | "fcntl") {
                return;
            }
            let sc = Scratch::new("fault");
            let d = sc.path().join("t");
            std::fs::create_dir_all(&d).unwrap();
            let path = prepare(s, &d);
            let before = tree::snap(&d);
            let (id, len) = s.new;
            let r = fault::strace(
                sc.path(),
                "f",
                &["write_atomic", path.to_str().unwrap(), &id.to_string(), &len.to_string()],
                Some(&format!("{call}:error={e}:when={nth}")),
            );
            let Ok((end, _)) = r else { return };
            ctx.eval(vm_core::h64(&(si, n, e)), true);
            ctx.count("faults", 1);
            let after = tree::snap(&d);
            let what = format!("{call} #{nth} fails with {e}");
            let removal = call.starts_with("unlink");
            match end {
                End::Ok => {
                    let stat = call.contains("stat");
                    let mode_ok = match s.old {
                        Some((_, _, m)) => stat || tree::mode(&path) == Some(m),
                        None => true,
                    };
                    if std::fs::read(&path).ok() != Some(content(id, len)) || after.len() != 2 || !mode_ok {
                        ctx.violate("atomic:fault-ok", json!({"scenario": si, "fault": what, "problem": "success reported, but the file is not the new one with the old permissions", "delta": tree::delta(&before, &after)}));
                    }
                }
                End::Err => {
                    ctx.count("failed cleanly", 1);
                    if before != after && !removal {
                        ctx.violate("atomic:fault-err", json!({"scenario": si, "fault": what, "problem": "failure reported, but the directory changed", "delta": tree::delta(&before, &after)}));
                    }
                }
                End::Panicked => ctx.violate("atomic:fault-panic", json!({"scenario": si, "fault": what})),
                // The debug build of the standard library may abort on an impossible close error.
                End::Killed(_) | End::Other(_) => ctx.count("process ended otherwise", 1),
            }
        });
    }
}
