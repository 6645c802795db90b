//! C22: advisory file locks.

use crate::fault::{self, End};
use crate::tree;
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};
use tinymist_std::fs::flock::{FileLock, Filesystem};
use vm_core::{json, parallel, watched, Ctx, Rng, Scratch, Watched};

fn now() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: plain system call.
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

const KINDS: [&str; 5] = ["ex", "sh", "tryex", "trysh", "ro"];

fn open(fs: &Filesystem, kind: &str, p: &Path) -> anyhow::Result<Option<FileLock>> {
    match kind {
        "ex" => fs.open_rw_exclusive_create(p, "test").map(Some),
        "sh" => fs.open_ro_shared_create(p, "test").map(Some),
        "tryex" => fs.try_open_rw_exclusive_create(p),
        "trysh" => fs.try_open_ro_shared_create(p),
        _ => fs.open_ro_shared(p, "test").map(Some),
    }
}

fn is_ex(kind: &str) -> bool {
    kind.ends_with("ex")
}

const WIDTH: usize = 16;

fn encode(n: u64) -> [u8; 2 * WIDTH] {
    let mut b = [0; 2 * WIDTH];
    b.copy_from_slice(format!("{n:016}{n:016}").as_bytes());
    b
}

fn decode(b: &[u8]) -> Option<u64> {
    let s = std::str::from_utf8(b).ok()?;
    if s.len() != 2 * WIDTH || s[..WIDTH] != s[WIDTH..] {
        return None;
    }
    s[..WIDTH].parse().ok()
}

/// One worker of the stress: returns log lines `file kind acquired released seen`.
fn worker(root: &Path, seed: u64, ops: usize, files: usize) -> Vec<String> {
    let fs = Filesystem::new(root.to_path_buf());
    let mut r = Rng::new(seed);
    let mut out = vec![];
    for _ in 0..ops {
        let f = r.below(files);
        let kind = *r.pick(&KINDS);
        let rel = PathBuf::from(format!("locks/f{f}"));
        let mut l = match open(&fs, kind, &rel) {
            Ok(Some(l)) => l,
            Ok(None) => {
                out.push(format!("{f} {kind} none"));
                continue;
            }
            Err(e) => {
                out.push(format!("{f} {kind} error {}", format!("{e:#}").replace('\n', " ")));
                continue;
            }
        };
        let a = now();
        let mut buf = vec![];
        let _ = l.seek(SeekFrom::Start(0));
        let _ = l.read_to_end(&mut buf);
        let seen = if buf.is_empty() { Some(0) } else { decode(&buf) };
        if is_ex(kind) {
            if let Some(n) = seen {
                let b = encode(n + 1);
                let _ = l.seek(SeekFrom::Start(0));
                let _ = l.write_all(&b[..WIDTH]);
                if r.chance(1, 3) {
                    std::thread::yield_now();
                }
                let _ = l.write_all(&b[WIDTH..]);
            }
        } else if r.chance(1, 4) {
            std::thread::sleep(Duration::from_micros(r.below(150) as u64));
        }
        let b = now();
        if r.chance(1, 40) {
            let _ = vm_core::guard(move || {
                let _held = l;
                std::panic::panic_any("vm-expected-panic")
            });
        } else {
            drop(l);
        }
        out.push(format!("{f} {kind} {a} {b} {}", seen.map_or(-1, |n| n as i64)));
    }
    out
}

pub fn child(op: &[String]) -> anyhow::Result<i32> {
    match op[0].as_str() {
        // locks-stress ROOT SEED THREADS OPS FILES
        "locks-stress" => {
            let (seed, threads, ops, files): (u64, usize, usize, usize) =
                (op[2].parse()?, op[3].parse()?, op[4].parse()?, op[5].parse()?);
            let root = PathBuf::from(&op[1]);
            let logs: Vec<Vec<String>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..threads)
                    .map(|t| {
                        let root = &root;
                        std::thread::Builder::new()
                            .name(format!("locker-{t}"))
                            .spawn_scoped(s, move || worker(root, seed * 31 + t as u64, ops, files))
                            .unwrap()
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            let mut o = std::io::stdout().lock();
            for l in logs.iter().flatten() {
                writeln!(o, "{l}")?;
            }
            Ok(fault::OK)
        }
        // locks-hold ROOT FILE KIND: holds until killed or until a line arrives on its input.
        "locks-hold" => {
            let fs = Filesystem::new(PathBuf::from(&op[1]));
            let l = open(&fs, &op[3], Path::new(&op[2]))?;
            println!("{}", if l.is_some() { "held" } else { "none" });
            std::io::stdout().flush()?;
            let mut s = String::new();
            std::io::stdin().read_line(&mut s)?;
            drop(l);
            println!("released");
            std::io::stdout().flush()?;
            std::io::stdin().read_line(&mut s)?;
            Ok(fault::OK)
        }
        // lock-once ROOT FILE KIND
        _ => {
            let fs = Filesystem::new(PathBuf::from(&op[1]));
            let _ = std::fs::File::open(format!("/nonexistent/{}", fault::MARKER));
            Ok(if open(&fs, &op[3], Path::new(&op[2]))?.is_some() { fault::OK } else { 43 })
        }
    }
}

pub fn c22(ctx: &Ctx) -> i32 {
    std::thread::scope(|s| {
        s.spawn(|| patience(ctx));
        stress(ctx);
        table(ctx);
        release(ctx);
        files(ctx);
        unsupported(ctx);
    });
    ctx.require("patient waiters", 30);
    ctx.require("critical sections", 2000);
    ctx.require("contended tries", 20);
    ctx.require("table cells", 60);
    ctx.finish(
        "exploration",
        "a stress round of processes and threads contending for lock files, or a cell of the holder/attempt table, or a release, file or fault case",
        &["locks are advisory and local: no network file system", "both threads of one process and separate processes contend"],
    )
}

struct Sect {
    ex: bool,
    a: u64,
    b: u64,
    seen: i64,
}

fn stress(ctx: &Ctx) {
    let rounds = ctx.n(12, 300);
    parallel(ctx, rounds, 2, |i| {
        let mut r = ctx.rng(i as u64);
        let s = Scratch::new("locks");
        let root = s.path().join("deep/er");
        let (procs, threads, files) = (r.range(1, 4), r.range(1, 4), r.range(1, 2));
        let ops = 400 / (procs * threads) + 10;
        let mut kids = vec![];
        for p in 0..procs {
            let seed = (ctx.seed * 1000 + i as u64) * 10 + p as u64;
            let args = ["locks-stress", root.to_str().unwrap(), &seed.to_string(), &threads.to_string(), &ops.to_string(), &files.to_string()];
            match fault::child(&args) {
                Ok(k) => kids.push(k),
                Err(e) => return ctx.inconclusive(format!("spawn: {e}")),
            }
        }
        let mut lines: Vec<String> = vec![];
        let limit = Instant::now() + Duration::from_secs(60);
        let mut hung = false;
        let readers: Vec<_> = kids
            .iter_mut()
            .map(|k| {
                let mut o = k.stdout.take().unwrap();
                std::thread::spawn(move || {
                    let mut s = String::new();
                    let _ = o.read_to_string(&mut s);
                    s
                })
            })
            .collect();
        for k in &mut kids {
            loop {
                match k.try_wait() {
                    Ok(Some(st)) => {
                        if st.code() != Some(fault::OK) {
                            ctx.violate("locks:worker", json!({"round": i, "status": format!("{st}")}));
                        }
                        break;
                    }
                    _ if Instant::now() > limit => {
                        hung = true;
                        let _ = k.kill();
                        let _ = k.wait();
                        break;
                    }
                    _ => std::thread::sleep(Duration::from_millis(2)),
                }
            }
        }
        for h in readers {
            if let Ok(s) = h.join() {
                lines.extend(s.lines().map(str::to_string));
            }
        }
        if hung {
            ctx.violate("locks:hung", json!({"round": i, "problem": "contending processes did not finish within 60 s"}));
            return;
        }
        let mut bad: Vec<String> = vec![];
        let mut contended = 0;
        for f in 0..files {
            let mut sects: Vec<Sect> = vec![];
            for l in &lines {
                let w: Vec<&str> = l.split(' ').collect();
                if w.len() < 3 || w[0] != f.to_string() {
                    continue;
                }
                match w[2] {
                    "none" => {
                        contended += 1;
                        if !w[1].starts_with("try") {
                            bad.push(format!("a blocking call returned nothing: {l}"));
                        }
                    }
                    "error" => {
                        // Only the call that must not create the file may fail, and only while nobody has created it.
                        if w[1] != "ro" {
                            bad.push(l.clone());
                        }
                    }
                    _ => sects.push(Sect {
                        ex: is_ex(w[1]),
                        a: w[2].parse().unwrap_or(0),
                        b: w[3].parse().unwrap_or(0),
                        seen: w[4].parse().unwrap_or(-2),
                    }),
                }
            }
            sects.sort_by_key(|s| s.a);
            let mut max_end = 0;
            let mut max_ex_end = 0;
            let mut writes = 0;
            for s in &sects {
                let limit = if s.ex { max_end } else { max_ex_end };
                if s.a < limit {
                    bad.push(format!("file {f}: {} section entered {} ns before an incompatible one ended", if s.ex { "exclusive" } else { "shared" }, limit - s.a));
                }
                if s.seen != writes {
                    bad.push(format!("file {f}: a section saw counter {} after {writes} updates", s.seen));
                }
                max_end = max_end.max(s.b);
                if s.ex {
                    max_ex_end = max_ex_end.max(s.b);
                    writes += 1;
                }
            }
            let last = std::fs::read(root.join(format!("locks/f{f}"))).unwrap_or_default();
            if !last.is_empty() && decode(&last) != Some(writes as u64) {
                bad.push(format!("file {f}: {writes} exclusive updates, but the file holds {:?}", String::from_utf8_lossy(&last)));
            }
            ctx.count("critical sections", sects.len() as u64);
            ctx.count("exclusive sections", writes as u64);
            // How much real concurrency there was: sections of others that started while this one was held.
            let overlaps = sects.windows(2).filter(|w| w[1].a < w[0].b).count();
            ctx.count("overlapping shared sections", overlaps as u64);
        }
        ctx.count("contended tries", contended);
        ctx.eval(vm_core::h64(&(i, procs, threads, files)), true);
        ctx.sample(|| json!({"round": i, "processes": procs, "threads": threads, "files": files, "events": lines.len()}));
        if !bad.is_empty() {
            bad.truncate(6);
            ctx.violate("locks:exclusion", json!({"round": i, "processes": procs, "threads": threads, "problems": bad}));
        }
    });
}

/// Many wait for a long time, and many locks are held at once.
fn patience(ctx: &Ctx) {
    let s = Scratch::new("patience");
    let root = s.path().to_path_buf();
    let Some(mut holder) = Holder::start(&root, "l", "ex") else {
        return ctx.violate("locks:patience", json!({"problem": "a free lock was refused"}));
    };
    let wait = Duration::from_secs(if matches!(ctx.tier, vm_core::Tier::Thorough) { 75 } else { 12 });
    let released = std::sync::atomic::AtomicBool::new(false);
    let bad: std::sync::Mutex<Vec<String>> = Default::default();
    // (exclusive, from, to)
    let got: std::sync::Mutex<Vec<(bool, u64, u64)>> = Default::default();
    let fs = Filesystem::new(root.clone());
    // Held by this process throughout.
    let mut held = vec![];
    for k in 0..300 {
        match fs.open_rw_exclusive_create(format!("many/{k}"), "test") {
            Ok(l) => held.push(l),
            Err(e) => bad.lock().unwrap().push(format!("lock {k} of many: {e:#}")),
        }
    }
    std::thread::scope(|sc| {
        for k in 0..60 {
            let kind = ["ex", "sh", "ro"][k % 3];
            let (fs, bad, got, released) = (&fs, &bad, &got, &released);
            sc.spawn(move || match open(fs, kind, Path::new("l")) {
                Ok(Some(l)) => {
                    let a = now();
                    if !released.load(std::sync::atomic::Ordering::SeqCst) {
                        bad.lock().unwrap().push(format!("{kind} was granted while the lock was held"));
                    }
                    std::thread::sleep(Duration::from_millis(2));
                    let b = now();
                    drop(l);
                    got.lock().unwrap().push((is_ex(kind), a, b));
                }
                o => bad.lock().unwrap().push(format!("{kind} after a long wait: {:?}", o.map(|l| l.is_some()).map_err(|e| format!("{e:#}")))),
            });
        }
        std::thread::sleep(wait);
        for k in (0..300).step_by(37) {
            if !matches!(fs.try_open_rw_exclusive_create(format!("many/{k}")), Ok(None)) {
                bad.lock().unwrap().push(format!("lock {k} of many was lost"));
            }
        }
        vm_core::tick();
        released.store(true, std::sync::atomic::Ordering::SeqCst);
        holder.release();
    });
    let mut got = got.into_inner().unwrap();
    let mut bad = bad.into_inner().unwrap();
    got.sort_by_key(|g| g.1);
    let (mut any, mut ex) = (0, 0);
    for g in &got {
        if g.1 < if g.0 { any } else { ex } {
            bad.push("two waiters were granted incompatible locks at once".into());
        }
        any = any.max(g.2);
        if g.0 {
            ex = ex.max(g.2);
        }
    }
    ctx.count("patient waiters", got.len() as u64);
    ctx.eval(vm_core::h64("patience"), true);
    if !bad.is_empty() {
        bad.truncate(6);
        ctx.violate("locks:patience", json!({"waited_s": wait.as_secs(), "problems": bad}));
    }
}

/// A lock held by another process.
struct Holder(std::process::Child);
impl Holder {
    fn start(root: &Path, file: &str, kind: &str) -> Option<Holder> {
        let mut k = fault::child(&["locks-hold", root.to_str()?, file, kind]).ok()?;
        let l = read_line(k.stdout.as_mut()?);
        if l != "held" {
            let _ = k.kill();
            let _ = k.wait();
            return None;
        }
        Some(Holder(k))
    }
    fn release(&mut self) {
        let _ = self.0.stdin.as_mut().unwrap().write_all(b"\n");
        let _ = read_line(self.0.stdout.as_mut().unwrap());
    }
}
impl Drop for Holder {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

fn read_line(r: &mut impl Read) -> String {
    let mut s = vec![];
    let mut b = [0];
    while matches!(r.read(&mut b), Ok(1)) && b[0] != b'\n' {
        s.push(b[0]);
    }
    String::from_utf8_lossy(&s).into_owned()
}

/// Every combination of what is held and what is attempted.
fn table(ctx: &Ctx) {
    for holder in ["", "ex", "sh", "tryex", "trysh", "ro", "sh+sh"] {
        for attempt in KINDS {
            for other_process in [false, true] {
                let s = Scratch::new("table");
                let root = s.path().to_path_buf();
                std::fs::write(root.join("l"), b"content").unwrap();
                let fs = Filesystem::new(root.clone());
                let mut local = vec![];
                let mut remote = vec![];
                for h in holder.split('+').filter(|h| !h.is_empty()) {
                    if other_process {
                        match Holder::start(&root, "l", h) {
                            Some(h) => remote.push(h),
                            None => ctx.violate("locks:table", json!({"problem": "a compatible lock was refused", "holder": holder, "kind": h})),
                        }
                    } else {
                        match open(&fs, h, Path::new("l")) {
                            Ok(Some(l)) => local.push(l),
                            o => ctx.violate("locks:table", json!({"problem": "a compatible lock was refused", "holder": holder, "kind": h, "result": format!("{o:?}")})),
                        }
                    }
                }
                let free = holder.is_empty();
                let compatible = free || (!is_ex(holder) && !is_ex(attempt));
                ctx.count("table cells", 1);
                ctx.eval(vm_core::h64(&(holder, attempt, other_process)), true);
                let case = json!({"held": holder, "attempt": attempt, "by another process": other_process});
                let blocks = !attempt.starts_with("try") && !compatible;
                let (r2, a2) = (root.clone(), attempt.to_string());
                let (tx, rx) = std::sync::mpsc::channel();
                std::thread::Builder::new()
                    .name("attempt".into())
                    .spawn(move || {
                        let fs = Filesystem::new(r2);
                        let r = open(&fs, &a2, Path::new("l"));
                        let _ = tx.send(r.map(|l| {
                            l.map(|mut l| {
                                let mut s = String::new();
                                let _ = l.read_to_string(&mut s);
                                (s, l)
                            })
                        }));
                    })
                    .unwrap();
                if blocks {
                    match rx.recv_timeout(Duration::from_millis(25)) {
                        Ok(r) => {
                            ctx.violate("locks:table", json!({"problem": "a lock was granted although an incompatible one is held", "case": case, "result": format!("{r:?}")}));
                            continue;
                        }
                        Err(_) => {
                            local.clear();
                            remote.iter_mut().for_each(Holder::release);
                        }
                    }
                }
                match rx.recv_timeout(Duration::from_secs(20)) {
                    Ok(Ok(Some((s, l)))) => {
                        // What was granted, perhaps after a wait, is of the kind that was asked for.
                        let shared = matches!(open(&fs, "trysh", Path::new("l")), Ok(Some(_)));
                        let sole = matches!(open(&fs, "tryex", Path::new("l")), Ok(Some(_)));
                        drop(l);
                        if shared == is_ex(attempt) || sole {
                            ctx.violate("locks:table", json!({"problem": "the lock is of another kind", "case": case, "others may share": shared, "others may lock": sole}));
                        } else if !compatible && !blocks {
                            ctx.violate("locks:table", json!({"problem": "a lock was granted although an incompatible one is held", "case": case}));
                        } else if s != "content" {
                            ctx.violate("locks:table", json!({"problem": "the content of the locked file changed", "case": case, "content": s}));
                        }
                    }
                    Ok(Ok(None)) => {
                        if compatible || blocks {
                            ctx.violate("locks:table", json!({"problem": "a free or shareable lock was refused", "case": case}));
                        } else {
                            ctx.count("contended tries", 1);
                        }
                    }
                    Ok(Err(e)) => ctx.violate("locks:table", json!({"problem": format!("{e:#}"), "case": case})),
                    Err(_) => ctx.violate("locks:table", json!({"problem": if blocks { "blocked for 20 s after the holder released" } else { "a call that must not block did not return within 20 s" }, "case": case})),
                }
                drop(local);
            }
        }
    }
}

/// The ways in which a lock ends.
fn release(ctx: &Ctx) {
    for (n, holder) in ["ex", "sh", "tryex", "trysh"].iter().enumerate() {
        for how in ["drop", "panic", "duplicated handle", "other handle open", "kill", "peer release"] {
            let s = Scratch::new("release");
            let root = s.path().to_path_buf();
            let fs = Filesystem::new(root.clone());
            let mut keep: Vec<std::fs::File> = vec![];
            let mut keep_holder = vec![];
            match how {
                "kill" => {
                    let Some(mut h) = Holder::start(&root, "l", holder) else { continue };
                    let _ = h.0.kill();
                    let _ = h.0.wait();
                }
                "peer release" => {
                    let Some(mut h) = Holder::start(&root, "l", holder) else { continue };
                    h.release();
                    keep_holder.push(h);
                }
                _ => {
                    let Ok(Some(l)) = open(&fs, holder, Path::new("l")) else {
                        ctx.violate("locks:release", json!({"problem": "not granted", "kind": holder}));
                        continue;
                    };
                    match how {
                        "panic" => {
                            let _ = vm_core::guard(move || {
                                let _l = l;
                                std::panic::panic_any("vm-expected-panic")
                            });
                        }
                        "duplicated handle" => {
                            keep.push(l.file().try_clone().unwrap());
                            drop(l);
                        }
                        "other handle open" => {
                            keep.push(std::fs::File::open(root.join("l")).unwrap());
                            drop(l);
                        }
                        _ => drop(l),
                    }
                }
            }
            ctx.count("releases", 1);
            ctx.eval(vm_core::h64(&(n, how)), true);
            let case = json!({"kind": holder, "released by": how});
            let fs2 = fs.clone();
            match watched(Duration::from_secs(20), move || fs2.open_rw_exclusive_create("l", "again").map(drop)) {
                Watched::Done(Ok(())) => {}
                Watched::Done(Err(e)) => ctx.violate("locks:release", json!({"case": case, "problem": format!("{e:#}")})),
                Watched::Panicked(p) => ctx.on_panic("lock", &p, case.clone()),
                Watched::Hung => ctx.violate("locks:release", json!({"case": case, "problem": "the lock was not released"})),
            }
            match fs.try_open_rw_exclusive_create("l") {
                Ok(Some(_)) => {}
                o => ctx.violate("locks:release", json!({"case": case, "problem": "the lock is still held", "result": format!("{o:?}")})),
            }
        }
    }
}

/// Creation, contents and access.
fn files(ctx: &Ctx) {
    let s = Scratch::new("lockfiles");
    let root = s.path().join("root");
    let fs = Filesystem::new(root.clone());
    let check = |what: &str, ok: bool, d: String| {
        ctx.eval(vm_core::h64(&what), true);
        ctx.count("file cases", 1);
        if !ok {
            ctx.violate(format!("locks:file:{what}"), json!({"case": what, "detail": d}));
        }
    };
    // Missing files.
    let r = fs.open_ro_shared("a/b/none", "m");
    check("open_ro_shared of a missing file fails and creates nothing", r.is_err() && !root.join("a").exists(), format!("{r:?}"));
    for (n, k) in ["ex", "sh", "tryex", "trysh"].iter().enumerate() {
        let rel = format!("p{n}/q/r/l");
        let r = open(&fs, k, Path::new(&rel));
        let ok = matches!(&r, Ok(Some(l)) if l.path() == root.join(&rel) && l.parent() == root.join(format!("p{n}/q/r")) && root.join(&rel).is_file());
        check(&format!("{k} creates the file and its parents"), ok, format!("{r:?}"));
    }
    // Existing contents stay.
    for k in KINDS {
        std::fs::write(root.join("keep"), b"precious content").unwrap();
        let r = open(&fs, k, Path::new("keep"));
        let mut got = String::new();
        if let Ok(Some(mut l)) = r {
            let _ = l.read_to_string(&mut got);
        }
        let disk = std::fs::read_to_string(root.join("keep")).unwrap();
        check(&format!("{k} keeps the content"), got == "precious content" && disk == got, format!("{got:?} {disk:?}"));
    }
    // Writing, seeking.
    {
        let mut l = fs.open_rw_exclusive_create("rw", "m").unwrap();
        let w = l.write_all(b"hello world").and_then(|_| l.flush());
        let p = l.seek(SeekFrom::Start(6)).unwrap_or(99);
        let mut got = String::new();
        let _ = l.read_to_string(&mut got);
        check("an exclusive lock can be read, written and sought", w.is_ok() && p == 6 && got == "world", format!("{w:?} {p} {got}"));
    }
    {
        let mut l = fs.open_ro_shared("rw", "m").unwrap();
        let w = l.write_all(b"XXXX");
        drop(l);
        let disk = std::fs::read_to_string(root.join("rw")).unwrap();
        check("a read-only lock refuses writes", w.is_err() && disk == "hello world", format!("{w:?} {disk}"));
    }
    // Parents created by many at once.
    for round in 0..ctx.n(20, 300) {
        let errs: Vec<String> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..6)
                .map(|t| {
                    let fs = &fs;
                    sc.spawn(move || {
                        let k = ["ex", "sh", "trysh"][t % 3];
                        open(fs, k, Path::new(&format!("race{round}/x/y/z/f{t}"))).map(|l| l.is_some())
                    })
                })
                .collect();
            hs.into_iter()
                .filter_map(|h| match h.join() {
                    Ok(Ok(true)) => None,
                    o => Some(format!("{o:?}")),
                })
                .collect()
        });
        check(&format!("parents created concurrently {round}"), errs.is_empty(), format!("{errs:?}"));
    }
    // Paths compose like paths.
    let mut r = ctx.rng(9);
    for _ in 0..200 {
        let part = |r: &mut Rng| ["a", "b/c", "..", ".", "/abs", "é", "x y/z", ""][r.below(8)].to_string();
        let mut f = Filesystem::new(root.clone());
        let mut p = root.clone();
        let mut h = vec![];
        for _ in 0..r.below(4) {
            let x = part(&mut r);
            if r.chance(1, 2) {
                f = f.join(&x);
                p = p.join(&x);
            } else {
                f.push(&x);
                p.push(&x);
            }
            h.push(x);
        }
        let ok = f.as_path_unlocked() == p && f == *p.as_path() && *p.as_path() == f && f.display().to_string() == p.display().to_string() && f.clone().into_path_unlocked() == p && f != *Path::new("/elsewhere");
        ctx.eval(vm_core::h64(&h), true);
        if !ok {
            ctx.violate("locks:paths", json!({"parts": h, "filesystem": f.display().to_string(), "path": p}));
        }
    }
    let d = Filesystem::new(root.join("made/by/create_dir"));
    check("create_dir", d.create_dir().is_ok() && d.create_dir().is_ok() && root.join("made/by/create_dir").is_dir(), String::new());
    let _ = tree::names(&root);
}

/// A file system without locks: access is granted without one; other failures are reported.
fn unsupported(ctx: &Ctx) {
    let cases = [
        ("ENOSYS", 1, true),
        ("EOPNOTSUPP", 1, true),
        ("EIO", 1, false),
        ("ENOLCK", 1, false),
        ("EBADF", 1, false),
    ];
    for kind in KINDS {
        for (e, n, ok) in cases {
            let s = Scratch::new("unsup");
            std::fs::write(s.path().join("l"), b"x").unwrap();
            let r = fault::strace(s.path(), "u", &["lock-once", s.path().to_str().unwrap(), "l", kind], Some(&format!("flock:error={e}:when={n}")));
            match r {
                Ok((end, t)) => {
                    if !t.iter().any(|l| l.contains("INJECTED")) {
                        ctx.count("locks taken by other means", 1);
                        continue;
                    }
                    ctx.eval(vm_core::h64(&(kind, e)), true);
                    ctx.count("failing flock", 1);
                    let want = if ok { End::Ok } else { End::Err };
                    if end != want {
                        ctx.violate("locks:unsupported", json!({"kind": kind, "flock fails with": e, "outcome": format!("{end:?}"), "expected": format!("{want:?}")}));
                    }
                }
                Err(e) => ctx.inconclusive(e),
            }
        }
        // A network file system, where flock may wait for ever: it is not even tried.  Elsewhere, it always is.
        for (inject, nfs) in [("statfs:poke_exit=@arg2=69690000", true), ("statfs:poke_exit=@arg2=69690000 and flock:error=EIO", true), ("statfs:error=EIO", false)] {
            let s = Scratch::new("nfs");
            std::fs::write(s.path().join("l"), b"x").unwrap();
            let Ok((end, t)) = fault::strace(s.path(), "n", &["lock-once", s.path().to_str().unwrap(), "l", kind], Some(inject)) else { continue };
            if !t.iter().any(|l| l.contains("statfs(") && l.contains("INJECTED")) {
                ctx.count("network file systems seen by other means", 1);
                continue;
            }
            ctx.eval(vm_core::h64(&(kind, inject)), true);
            ctx.count("pretended file systems", 1);
            let flocks = t.iter().filter(|l| l.contains("flock(") && !l.contains("LOCK_UN")).count();
            if end != End::Ok || nfs != (flocks == 0) {
                ctx.violate("locks:network", json!({"kind": kind, "injected": inject, "outcome": format!("{end:?}"), "calls of flock": flocks}));
            }
        }
        // Held by another, and waiting for it fails: whoever is told to have it would not be alone.
        for (e, mode) in [("EIO", libc::LOCK_EX), ("ENOLCK", libc::LOCK_EX), ("EIO", libc::LOCK_SH)] {
            if kind.starts_with("try") || mode == libc::LOCK_SH && kind != "ex" {
                continue;
            }
            let s = Scratch::new("unsup");
            std::fs::write(s.path().join("l"), b"x").unwrap();
            let held = std::fs::File::open(s.path().join("l")).unwrap();
            if unsafe { libc::flock(std::os::fd::AsRawFd::as_raw_fd(&held), mode) } != 0 {
                continue;
            }
            let Ok((end, t)) = fault::strace(s.path(), "w", &["lock-once", s.path().to_str().unwrap(), "l", kind], Some(&format!("flock:error={e}:when=2"))) else { continue };
            if !t.iter().any(|l| l.contains("INJECTED")) {
                ctx.count("locks waited for by other means", 1);
                continue;
            }
            ctx.eval(vm_core::h64(&(kind, e, mode)), true);
            ctx.count("failing waits", 1);
            if end == End::Ok {
                ctx.violate("locks:failed-wait", json!({"kind": kind, "flock fails with": e, "outcome": "the lock was given although another holds it"}));
            }
            drop(held);
        }
        // Contention reported once: blocking calls wait, try calls give up.
        let s = Scratch::new("unsup");
        std::fs::write(s.path().join("l"), b"x").unwrap();
        if let Ok((end, t)) = fault::strace(s.path(), "u", &["lock-once", s.path().to_str().unwrap(), "l", kind], Some("flock:error=EWOULDBLOCK:when=1")) {
            if t.iter().any(|l| l.contains("INJECTED")) {
                let want = if kind.starts_with("try") { End::Other(43) } else { End::Ok };
                ctx.eval(vm_core::h64(&(kind, "busy")), true);
                if end != want {
                    ctx.violate("locks:contended", json!({"kind": kind, "outcome": format!("{end:?}"), "expected": format!("{want:?}")}));
                }
            }
        }
    }
}
