//! Views that are read while their origin changes.

use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use serde_json::{json, Value};
use tinymist_std::ImmutPath;
use tinymist_vfs::{FileChangeSet, FileId, Vfs};
use typst::diag::FileResult;
use vm_core::{h64, parallel, Ctx, Rng};

use crate::disk::{decoded, files, Disk};
use crate::history::{snap, Layers};

type C = FileResult<Vec<u8>>;

/// What a reader saw that it should not have seen.
fn look(vfs: &Vfs<Disk>, layers: &Layers, disk: &Disk, id: FileId, path: &FileResult<PathBuf>, source: bool) -> Option<Value> {
    let want: C = layers.top(id, path).unwrap_or_else(|p| disk.get(&p));
    let (got, want) = if source {
        (vfs.source(id).map(|s| s.text().to_owned()), decoded(&want))
    } else {
        (vfs.read(id).map(|b| String::from_utf8_lossy(&b).into_owned()), want.map(|b| String::from_utf8_lossy(&b).into_owned()))
    };
    (got != want).then(|| json!({"file": format!("{id:?}"), "path": format!("{path:?}"), "source": source, "got": format!("{got:?}"), "want": format!("{want:?}")}))
}

fn case(ctx: &Ctx, seed: u64) {
    let mut r = Rng::new(seed);
    let disk = Disk::new(None, r.chance(2, 3));
    let fs = Arc::new(files(&mut r, &PathBuf::from("/virtual")));
    let mut n = 0u64;
    let fresh = |n: &mut u64| -> C {
        *n += 1;
        Ok(format!("version {n}").into_bytes())
    };
    for p in &fs.paths {
        let c = fresh(&mut n);
        disk.set(p, c);
    }
    let mut vfs = Vfs::new(fs.packages.clone(), disk.clone());
    let mut layers = Layers::default();
    // A few files that everyone is after.
    let hot: Vec<usize> = (0..r.range(1, 6)).map(|_| r.below(fs.ids.len())).collect();
    let bad: Arc<Mutex<Vec<Value>>> = Arc::default();
    let stop = Arc::new(AtomicBool::new(false));
    let overlaps = Arc::new(AtomicU64::new(0));
    let round = Arc::new(AtomicU64::new(0));
    let mut hs = vec![];
    for step in 0..r.range(5, 40) {
        // A compilation starts on a snapshot, or on a view without its caches.
        if r.chance(2, 3) {
            let view = if r.chance(1, 4) { vfs.fork() } else { vfs.snapshot() };
            let (l, d, f, b, o, rd) = (layers.clone(), disk.clone(), fs.clone(), bad.clone(), overlaps.clone(), round.clone());
            let seed = r.u64();
            let hot = hot.clone();
            let stop = stop.clone();
            hs.push(std::thread::spawn(move || {
                let mut r = Rng::new(seed);
                let start = rd.load(Ordering::SeqCst);
                for _ in 0..r.range(1, 30) {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let i = if r.chance(2, 3) { *r.pick(&hot) } else { r.below(f.ids.len()) };
                    let (id, p) = &f.ids[i];
                    if let Some(v) = look(&view, &l, &d, *id, p, r.chance(1, 2)) {
                        b.lock().unwrap().push(json!({"by": "snapshot", "step": step, "what": v}));
                    }
                    if rd.load(Ordering::SeqCst) != start {
                        o.fetch_add(1, Ordering::Relaxed);
                    }
                }
            }));
        }
        if r.chance(1, 3) {
            std::thread::sleep(std::time::Duration::from_micros(r.below(600) as u64));
        }
        // An edit arrives.
        if r.chance(4, 5) {
            let mut rv = vfs.revise();
            if r.chance(1, 4) {
                std::thread::yield_now();
            }
            for _ in 0..r.range(1, 2) {
                let i = if r.chance(3, 4) { *r.pick(&hot) } else { r.below(fs.ids.len()) };
                let (id, p) = &fs.ids[i];
                let c = fresh(&mut n);
                match (p, r.below(5)) {
                    (Ok(p), 0 | 1) => {
                        let _ = rv.map_shadow(p, snap(&c));
                        layers.by_path.insert(p.clone(), c);
                    }
                    (Ok(p), 2) => {
                        let _ = rv.unmap_shadow(p);
                        layers.by_path.remove(p);
                    }
                    (Ok(p), 3) => {
                        let set = FileChangeSet::new_inserts(vec![(ImmutPath::from(p.as_path()), snap(&c))]);
                        rv.notify_fs_changes(set);
                        layers.notified.insert(p.clone(), c);
                    }
                    _ => {
                        if layers.by_id.remove(id).is_some() {
                            rv.remove_shadow_by_id(*id);
                        } else {
                            let _ = rv.map_shadow_by_id(*id, snap(&c));
                            layers.by_id.insert(*id, c);
                        }
                    }
                }
            }
            drop(rv);
            round.fetch_add(1, Ordering::SeqCst);
        }
        if r.chance(1, 10) {
            vfs.evict(r.below(4));
            vfs.clone_source_cache().evict(vfs.revision(), r.below(3));
        }
        if r.chance(1, 2) {
            let i = *r.pick(&hot);
            let (id, p) = &fs.ids[i];
            if let Some(v) = look(&vfs, &layers, &disk, *id, p, r.chance(1, 2)) {
                bad.lock().unwrap().push(json!({"by": "origin", "step": step, "what": v}));
                break;
            }
        }
    }
    if r.chance(1, 3) {
        stop.store(true, Ordering::Relaxed);
    }
    let threads = hs.len();
    for h in hs {
        if h.join().is_err() {
            bad.lock().unwrap().push(json!("a reader panicked"));
        }
    }
    for (id, p) in &fs.ids {
        if let Some(v) = look(&vfs, &layers, &disk, *id, p, r.chance(1, 2)) {
            bad.lock().unwrap().push(json!({"by": "origin, at the end", "what": v}));
        }
    }
    let bad = std::mem::take(&mut *bad.lock().unwrap());
    if !bad.is_empty() {
        ctx.violate("view-not-isolated", json!({"seed": seed, "seen": bad.iter().take(5).collect::<Vec<_>>(), "in all": bad.len()}));
    }
    let o = overlaps.load(Ordering::Relaxed);
    ctx.count("readers", threads as u64);
    ctx.count("reads while the origin had changed", o);
    ctx.count("disk reads", disk.reads());
    ctx.eval(h64(&seed), o > 0);
}

pub fn c52(ctx: &Ctx) -> i32 {
    let tsan = cfg!(vm_tsan);
    parallel(ctx, ctx.n(if tsan { 100 } else { 1000 }, if tsan { 4000 } else { 100_000 }), 4, |i| {
        if ctx.violations() >= 3 {
            return;
        }
        case(ctx, ctx.rng(i as u64).u64());
    });
    ctx.require("reads while the origin had changed", 50);
    ctx.finish(
        "exploration",
        "up to 40 threads that read snapshots and forks, over a slow disk, while their origin is edited; non-trivial: views were read after their origin had changed; oracle: each view against the layers at its creation, the origin against its layers now",
        &["typst's data types and rpds are stand-ins that behave as documented"],
    )
}
