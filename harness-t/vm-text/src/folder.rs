//! C66: of the exports that wait, the newest is done; none is forgotten.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

use tinymist::task::Folder;
use vm_core::{json, parallel, Ctx, Rng, Value};

/// What happened, in order: asked (its number, revision), made, begun, ended.
#[derive(Clone, Copy, Debug, PartialEq)]
enum E {
    Ask(usize, usize),
    Asked(usize),
    Make(usize),
    Begin(usize),
    End(usize),
}
type Log = Arc<Mutex<Vec<E>>>;

struct Job {
    id: usize,
    steps: usize,
    begun: bool,
    log: Log,
    /// It asks for another one while it runs.
    then: Option<Box<dyn FnOnce() + Send>>,
    /// Wakes itself, or is woken from elsewhere.
    own: bool,
}
impl Future for Job {
    type Output = Option<()>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<()>> {
        if !std::mem::replace(&mut self.begun, true) {
            self.log.lock().unwrap().push(E::Begin(self.id));
        }
        if self.steps > 0 {
            self.steps -= 1;
            let w = cx.waker().clone();
            if self.own {
                w.wake();
            } else {
                std::thread::spawn(move || w.wake());
            }
            return Poll::Pending;
        }
        if let Some(f) = self.then.take() {
            f();
        }
        self.log.lock().unwrap().push(E::End(self.id));
        Poll::Ready(if self.id % 2 == 0 { Some(()) } else { None })
    }
}

type Driver = Pin<Box<dyn Future<Output = ()> + Send>>;

struct World {
    folder: Folder,
    log: Log,
    next: AtomicUsize,
    alive: AtomicUsize,
    twice: AtomicBool,
}

impl World {
    fn ask(self: &Arc<Self>, rev: usize, steps: usize, own: bool, then: Option<Box<dyn FnOnce() + Send>>) -> Option<Driver> {
        let id = self.next.fetch_add(1, SeqCst);
        let log = self.log.clone();
        log.lock().unwrap().push(E::Ask(id, rev));
        let l = log.clone();
        let d = self.folder.spawn(rev, move || {
            l.lock().unwrap().push(E::Make(id));
            Box::pin(Job { id, steps, begun: false, log: l, then, own })
        });
        log.lock().unwrap().push(E::Asked(id));
        let d = d?;
        let me = self.clone();
        if me.alive.fetch_add(1, SeqCst) > 0 {
            // The one before may have given up already without having returned: only seen when nothing overlaps.
            me.twice.store(true, SeqCst);
        }
        Some(Box::pin(async move {
            d.await;
            me.alive.fetch_sub(1, SeqCst);
        }))
    }
}

/// `alone`: nothing else happened while one asked.
fn judge(log: &[E], alone: bool) -> Option<(&'static str, Value)> {
    let bad = |what: &'static str, id: usize| Some((what, json!({"job": id, "log": format!("{log:?}")})));
    let mut rev = std::collections::HashMap::new();
    let mut running = None;
    let mut begun = std::collections::HashSet::new();
    let mut waiting: Option<usize> = None;
    for (k, e) in log.iter().enumerate() {
        match *e {
            E::Ask(id, r) => {
                rev.insert(id, r);
            }
            E::Asked(_) => {}
            E::Make(id) => {
                // Whoever waited is given up for something newer only.
                if let Some(w) = waiting {
                    if !begun.contains(&w) && rev[&w] >= rev[&id] && alone {
                        return bad("older", id);
                    }
                }
                waiting = Some(id);
            }
            E::Begin(id) => {
                if running.is_some() {
                    return bad("overlap", id);
                }
                if !begun.insert(id) {
                    return bad("again", id);
                }
                if waiting == Some(id) {
                    waiting = None;
                }
                running = Some(id);
            }
            E::End(id) => {
                if running != Some(id) {
                    return bad("end", id);
                }
                running = None;
            }
        }
        // Each that is asked for is done afterwards, or something newer is.
        if let E::Ask(id, r) = *e {
            if !log[k..].iter().any(|x| matches!(x, E::Begin(y) if { let y = log.iter().find_map(|z| match z { E::Ask(i, q) if i == y => Some(*q), _ => None }).unwrap(); y >= r })) {
                return bad("lost", id);
            }
        }
    }
    running.and_then(|id| bad("unfinished", id))
}

fn steps(ctx: &Ctx, r: &mut Rng) -> Option<(&'static str, Value)> {
    let w = Arc::new(World { folder: Folder::default(), log: Default::default(), next: AtomicUsize::new(0), alive: AtomicUsize::new(0), twice: AtomicBool::new(false) });
    let mut drivers: Vec<Driver> = vec![];
    let mut cx = Context::from_waker(futures::task::noop_waker_ref());
    let mut rev = r.range(1, 5);
    let made: Arc<Mutex<Vec<Driver>>> = Default::default();
    for _ in 0..r.range(1, 25) {
        if r.chance(1, 2) {
            rev = match r.below(4) {
                0 => rev,
                1 => rev.saturating_sub(r.below(3)),
                _ => rev + r.range(1, 3),
            };
            let then: Option<Box<dyn FnOnce() + Send>> = r.chance(1, 4).then(|| {
                let (w, made, rev) = (w.clone(), made.clone(), rev + 1 - r.below(3).min(rev));
                Box::new(move || {
                    let d = w.ask(rev, 0, true, None);
                    made.lock().unwrap().extend(d);
                }) as _
            });
            drivers.extend(w.ask(rev, r.below(3), true, then));
            ctx.count("asked", 1);
        } else {
            for _ in 0..r.range(1, 4) {
                drivers.retain_mut(|d| d.as_mut().poll(&mut cx).is_pending());
                drivers.append(&mut made.lock().unwrap());
            }
        }
        if w.twice.load(SeqCst) || drivers.len() > 1 {
            return Some(("twice", json!({"log": format!("{:?}", w.log.lock().unwrap())})));
        }
    }
    for _ in 0..400 {
        drivers.retain_mut(|d| d.as_mut().poll(&mut cx).is_pending());
        drivers.append(&mut made.lock().unwrap());
    }
    if !drivers.is_empty() {
        return Some(("endless", json!({"log": format!("{:?}", w.log.lock().unwrap())})));
    }
    let log = w.log.lock().unwrap().clone();
    ctx.count("done", log.iter().filter(|e| matches!(e, E::End(_))).count() as u64);
    judge(&log, true)
}

fn threads(ctx: &Ctx, rt: &tokio::runtime::Runtime, seed: u64) -> Option<(&'static str, Value)> {
    let w = Arc::new(World { folder: Folder::default(), log: Default::default(), next: AtomicUsize::new(0), alive: AtomicUsize::new(0), twice: AtomicBool::new(false) });
    let rev = Arc::new(AtomicUsize::new(1));
    std::thread::scope(|s| {
        for t in 0..4 {
            let (w, rev) = (w.clone(), rev.clone());
            s.spawn(move || {
                let mut r = Rng::new(seed ^ t);
                for _ in 0..r.range(1, 20) {
                    let n = rev.fetch_add(1, SeqCst);
                    if let Some(d) = w.ask(n, r.below(3), r.chance(1, 2), None) {
                        rt.spawn(d);
                    }
                    if r.chance(1, 3) {
                        std::thread::yield_now();
                    }
                }
            });
        }
    });
    let t = std::time::Instant::now();
    while w.alive.load(SeqCst) > 0 {
        if t.elapsed().as_secs() > 20 {
            return Some(("endless", json!({"log": format!("{:?}", w.log.lock().unwrap())})));
        }
        std::thread::sleep(std::time::Duration::from_micros(200));
    }
    let log = w.log.lock().unwrap().clone();
    ctx.count("done on threads", log.iter().filter(|e| matches!(e, E::End(_))).count() as u64);
    judge(&log, false)
}

pub fn c66(ctx: &Ctx) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().expect("runtime");
    parallel(ctx, ctx.n(20_000, 1_000_000), 8, |i| {
        if ctx.violations() >= 3 {
            return;
        }
        let seed = ctx.rng(i as u64).u64();
        ctx.eval(seed, true);
        let found = if i % 16 == 0 { threads(ctx, &rt, seed) } else { steps(ctx, &mut Rng::new(seed)) };
        if let Some((s, d)) = found {
            ctx.violate(s, json!({"case": seed.to_string(), "threads": i % 16 == 0, "found": d}));
        }
    });
    // What is computed elsewhere comes back, also when it panics.
    for k in 0..200usize {
        let got = rt.block_on(Folder::compute(move || if k % 3 == 0 { panic!("no") } else { k }));
        if got.clone().ok() != (k % 3 != 0).then_some(k) {
            ctx.violate("compute", json!({"k": k, "got": format!("{got:?}")}));
        }
    }
    ctx.require("asked", 1000);
    ctx.require("done", 1000);
    ctx.require("done on threads", 100);
    ctx.finish(
        "exploration",
        "histories of exports that are asked for at all revisions while others wait, run, or are asked for by those that run; one step at a time, or on threads; \
         non-trivial: all; oracle: the log of what was asked, begun and ended",
        &["exports themselves are not run", "an export that panics itself is not claimed"],
    )
}
