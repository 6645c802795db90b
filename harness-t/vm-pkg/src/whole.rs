//! A package is there wholly or not at all.

use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

use reqwest::Answer;
use serde_json::{json, Value};
use tinymist_package::registry::{DummyNotifier, PackageStorage};
use typst::diag::PackageError;
use typst::syntax::package::PackageSpec;
use vm_core::{h64, parallel, Ctx, Rng, Scratch};

use crate::fault::{self, End};
use crate::storage::{spec, url};
use crate::web::{self, Slow, Tree};

fn storage(cache: &Path) -> PackageStorage {
    PackageStorage::new(Some(cache.into()), None, None, Arc::<parking_lot::Mutex<DummyNotifier>>::default())
}

fn place(cache: &Path, s: &PackageSpec) -> PathBuf {
    cache.join(format!("{}/{}/{}", s.namespace, s.name, s.version))
}

/// How the server answers once.
#[derive(Clone, Debug)]
enum How {
    Whole,
    Cut(usize),
    Reset(usize),
    Garbage,
    Status(u16),
    Down,
}

fn how(r: &mut Rng, len: usize) -> How {
    match r.below(10) {
        0..=3 => How::Whole,
        4 | 5 => How::Cut(r.below(len)),
        6 | 7 => How::Reset(r.below(len)),
        8 => How::Garbage,
        _ => r.pick(&[How::Down, How::Status(404), How::Status(500)]).clone(),
    }
}

fn answer(h: &How, a: &[u8], step: usize, micros: u64) -> Answer {
    let slow = |data: Vec<u8>, fail_at| Answer::Body(200, Box::new(Slow { data, at: 0, step, micros, fail_at }));
    match h {
        How::Whole => slow(a.to_vec(), None),
        How::Cut(n) => slow(a[..*n].to_vec(), None),
        How::Reset(n) => slow(a.to_vec(), Some(*n)),
        How::Garbage => slow(b"<!doctype html>".to_vec(), None),
        How::Status(c) => web::body(*c, a.to_vec()),
        How::Down => Answer::Fail("down".into()),
    }
}

fn racing(ctx: &Ctx, r: &mut Rng, i: usize) {
    let sc = Scratch::new("whole");
    let cache = sc.path().join("cache");
    let s = spec("preview", &format!("race-{i}"), "1.2.3");
    let dir = place(&cache, &s);
    let t = web::tree(r, true);
    let dots = r.chance(1, 3);
    let a = web::gzip(&web::tarball(r, &t, dots));
    let hows: Vec<How> = (0..r.range(1, 6)).map(|_| if r.chance(1, 2) { How::Whole } else { how(r, a.len()) }).collect();
    let (step, micros) = (r.range(1, a.len() / 3 + 2), r.below(300) as u64);
    let at = Arc::new(AtomicUsize::new(0));
    {
        let (a, at, hows) = (a.clone(), at.clone(), hows.clone());
        web::route(&url(&s), move || {
            let k = at.fetch_add(1, Ordering::SeqCst);
            answer(&hows[k % hows.len()], &a, step, micros)
        });
    }
    let bad: Arc<Mutex<Vec<Value>>> = Arc::default();
    let done = Arc::new(AtomicBool::new(false));
    let seen = Arc::new(AtomicU64::new(0));
    let judge = {
        let (t, bad, dir) = (t.clone(), bad.clone(), dir.clone());
        move |who: &str| {
            match web::disk(&dir) {
                Ok(d) if d == t => return,
                Ok(d) => bad.lock().unwrap().push(json!({"seen by": who, "differs": web::diff(&d, &t)})),
                Err(e) => bad.lock().unwrap().push(json!({"seen by": who, "error": e.to_string()})),
            };
        }
    };
    let (ok, err) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..r.range(1, 5))
            .map(|k| {
                let wait = r.below(400) as u64;
                let (cache, s, judge, dir, bad, ok, err, hows) = (cache.clone(), s.clone(), judge.clone(), dir.clone(), bad.clone(), ok.clone(), err.clone(), hows.clone());
                sc.spawn(move || {
                    std::thread::sleep(std::time::Duration::from_micros(wait));
                    for _ in 0..3 {
                        match storage(&cache).prepare_package(&s) {
                            Ok(p) => {
                                ok.fetch_add(1, Ordering::Relaxed);
                                if *p != *dir {
                                    bad.lock().unwrap().push(json!({"resolved to": p.display().to_string()}));
                                }
                                judge(&format!("resolver {k}"));
                            }
                            Err(e) => {
                                err.fetch_add(1, Ordering::Relaxed);
                                if hows.iter().all(|h| matches!(h, How::Whole)) {
                                    bad.lock().unwrap().push(json!({"failed although the server has it": format!("{e:?}")}));
                                }
                                if let PackageError::NotFound(_) = e {
                                    if !hows.iter().any(|h| matches!(h, How::Status(404))) {
                                        bad.lock().unwrap().push(json!("not found although the server never said so"));
                                    }
                                }
                            }
                        }
                    }
                })
            })
            .collect();
        let (d, judge, done, seen) = (dir.clone(), judge.clone(), &done, seen.clone());
        sc.spawn(move || {
            // Like another process, which takes what exists.
            while !done.load(Ordering::Relaxed) {
                if d.exists() {
                    judge("someone who looks");
                    seen.fetch_add(1, Ordering::Relaxed);
                } else {
                    std::thread::yield_now();
                }
            }
        });
        for h in hs {
            if h.join().is_err() {
                bad.lock().unwrap().push(json!("a resolver panicked"));
            }
        }
        done.store(true, Ordering::Relaxed);
    });
    // Nothing else is left.
    let ok = ok.load(Ordering::Relaxed);
    let left: Vec<String> = dir.parent().and_then(|p| std::fs::read_dir(p).ok()).into_iter().flatten().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect();
    let want: Vec<String> = if ok > 0 { vec!["1.2.3".into()] } else { vec![] };
    if ok > 0 && left != want || ok == 0 && !left.is_empty() {
        bad.lock().unwrap().push(json!({"left": left, "want": want}));
    }
    web::unroute(&url(&s));
    let bad = std::mem::take(&mut *bad.lock().unwrap());
    if !bad.is_empty() {
        ctx.violate("partial-package", json!({"answers": format!("{hows:?}"), "archive bytes": a.len(), "seen": bad.iter().take(4).collect::<Vec<_>>(), "times": bad.len()}));
    }
    ctx.count("resolved", ok);
    ctx.count("failed", err.load(Ordering::Relaxed));
    ctx.count("downloads", at.load(Ordering::SeqCst) as u64);
    ctx.count("looks", seen.load(Ordering::Relaxed));
    ctx.eval(h64(&(format!("{hows:?}"), i)), at.load(Ordering::SeqCst) > 1);
}

fn package(seed: u64) -> (PackageSpec, Tree, Vec<u8>) {
    let mut r = Rng::new(seed);
    let t = web::tree(&mut r, true);
    let a = web::gzip(&web::tarball(&mut r, &t, false));
    (spec("preview", "crash", "0.4.2"), t, a)
}

/// `child resolve CACHE SEED`
pub fn child(args: &[String]) -> i32 {
    let (cache, seed) = (PathBuf::from(&args[0]), args[1].parse().unwrap_or(0));
    let (s, _, a) = package(seed);
    web::start();
    web::route(&url(&s), move || answer(&How::Whole, &a, 4096, 0));
    let _ = std::fs::File::open(format!("/nonexistent/{}", fault::MARKER));
    match vm_core::guard(|| storage(&cache).prepare_package(&s)) {
        Ok(Ok(_)) => fault::OK,
        Ok(Err(_)) => fault::ERR,
        Err(_) => fault::PANICKED,
    }
}

/// The process dies, or a system call fails, at some point.
fn crashing(ctx: &Ctx, r: &mut Rng) {
    let seed = r.u64();
    let (s, t, a) = package(seed);
    let base = Scratch::new("crash");
    let c0 = base.path().join("c0");
    let op = |c: &Path| vec!["resolve".to_string(), c.display().to_string(), seed.to_string()];
    let run = |tag: &str, c: &Path, inject: Option<&str>| {
        let o = op(c);
        fault::strace(base.path(), tag, &o.iter().map(|s| s.as_str()).collect::<Vec<_>>(), inject)
    };
    let trace = match run("base", &c0, None) {
        Ok((End::Ok, t)) => t,
        o => return ctx.violate("undisturbed-child-fails", json!({"end": format!("{:?}", o.map(|o| o.0))})),
    };
    let Some((from, to)) = fault::op_range(&trace, fault::MARKER) else { return };
    for j in 0..12 {
        if ctx.violations() >= 5 {
            return;
        }
        let n = r.range(from, to.max(from));
        let Some((call, nth)) = fault::nth_call(&trace, n) else { continue };
        let kill = r.chance(1, 2);
        let inject = if kill {
            format!("{call}:signal=SIGKILL:when={nth}")
        } else {
            if !["openat", "write", "mkdir", "rename", "renameat", "renameat2", "unlinkat", "chmod", "fchmod"].contains(&call.as_str()) {
                continue;
            }
            let many = if r.chance(1, 2) { "+" } else { "" };
            format!("{call}:error={}:when={nth}{many}", r.pick(&["ENOSPC", "EACCES", "EIO", "EXDEV"]))
        };
        let cache = base.path().join(format!("k{j}"));
        let Ok((end, _)) = run("k", &cache, Some(&inject)) else { continue };
        let dir = place(&cache, &s);
        let info = |d: Value| json!({"seed": seed, "fault": inject, "end": format!("{end:?}"), "detail": d});
        if end == End::Panicked {
            ctx.violate("panics-on-a-fault", info(json!(null)));
        }
        if dir.exists() {
            match web::disk(&dir) {
                Ok(d) if d == t => ctx.count("whole after a fault", 1),
                Ok(d) => ctx.violate("partial-package-after-a-fault", info(json!(web::diff(&d, &t)))),
                Err(e) => ctx.violate("partial-package-after-a-fault", info(json!(e.to_string()))),
            }
        } else {
            ctx.count("absent after a fault", 1);
            if end == End::Ok {
                ctx.violate("success-without-a-package", info(json!(null)));
            }
        }
        // The next one gets the package.
        let again = fault::child_wait(&op(&cache).iter().map(|s| s.as_str()).collect::<Vec<_>>(), None).0;
        match web::disk(&dir) {
            Ok(d) if d == t && again == End::Ok => {}
            o => ctx.violate("not-resolvable-after-a-fault", info(json!({"again": format!("{again:?}"), "found": o.map(|d| web::diff(&d, &t)).map_err(|e| e.to_string())}))),
        }
        ctx.count(if kill { "kills" } else { "faults" }, 1);
        ctx.eval(h64(&(seed, inject.clone())), true);
    }
    let _ = a;
}

pub fn c56(ctx: &Ctx) -> i32 {
    parallel(ctx, ctx.n(60, 6000), 8, |i| {
        if ctx.violations() >= 5 {
            return;
        }
        let mut r = ctx.rng(i as u64);
        racing(ctx, &mut r, i);
        if i % 10 == 0 {
            crashing(ctx, &mut r);
        }
    });
    ctx.require("resolved", 50);
    ctx.require("failed", 20);
    ctx.require("looks", 20);
    ctx.require("kills", 5);
    ctx.finish(
        "exploration",
        "up to five resolvers at once of a package whose downloads are whole, cut, reset, garbage, refused or down, with an onlooker that takes what exists; child processes killed at, or failing in, chosen system calls of the download, followed by a fresh one; non-trivial: several downloads, or a fault; oracle: the files that were archived",
        &["the HTTP client is a stand-in; its server is a function", "a file system that keeps renames in order: no power failure"],
    )
}
