//! C59: what the watcher tells adds up to the disk, and each question is answered once, in order.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

use tinymist_std::ImmutPath;
use tinymist_vfs::notify::{FilesystemEvent, NotifyMessage, UpstreamUpdateEvent};
use tinymist_vfs::FileChangeSet;
use vm_core::{h64, json, Ctx, Rng, Scratch, Value};

use crate::sys::*;

/// None is a file that cannot be read.
type Content = Option<String>;

struct Question {
    id: usize,
    paths: Vec<String>,
    /// The length of the history when it was asked.
    at: usize,
}

struct Sim<'a> {
    ctx: &'a Ctx,
    disk: Disk,
    watch: Watch,
    rx: Receiver<FilesystemEvent>,
    /// What the consumer knows.
    known: BTreeMap<String, Content>,
    asked: Vec<Question>,
    answered: usize,
    deps: BTreeSet<String>,
    /// Asked about since the dependencies were told.
    extra: BTreeSet<String>,
    /// Every content that a reader could have found, in order.
    history: Vec<(String, Content)>,
    /// A file came into being that was not watched.
    unnoticed: bool,
    /// A file was told to be missing.
    lost: bool,
    sent: usize,
    syncs: usize,
    /// Files that are never empty except while they are written.
    steady: bool,
    ops: Vec<String>,
    updates: u64,
    withheld: u64,
}

const PATHS: [&str; 12] = ["m0.typ", "m1.typ", "sub/m2.typ", "a.typ", "b.typ", "sub/c.typ", "e.txt", "sub/g.txt", "nowhere.txt", "sub", "never/there.typ", "f.txt"];

impl Sim<'_> {
    fn imm(&self, n: &str) -> ImmutPath {
        self.disk.path(n).as_path().into()
    }
    fn violate(&self, sig: &str, detail: Value) {
        let n = self.ops.len();
        self.ctx.violate(sig, json!({ "detail": detail, "ops": self.ops[n.saturating_sub(120)..] }));
    }
    fn sync(&mut self, deps: BTreeSet<String>) {
        let mut paths: Vec<ImmutPath> = deps.iter().map(|d| self.imm(d)).collect();
        // A file may be told twice, when two projects depend on it.
        if let Some(p) = paths.first().cloned() {
            paths.push(p);
        }
        self.deps = deps;
        self.extra.clear();
        self.sent += 1;
        self.syncs += 1;
        let _ = self.watch.tx.send(NotifyMessage::SyncDependency(Box::new(paths)));
    }
    fn ask(&mut self, paths: Vec<String>) {
        let id = self.asked.len();
        let invalidates = paths.iter().map(|d| self.imm(d)).collect();
        self.extra.extend(paths.iter().cloned());
        self.asked.push(Question { id, paths, at: self.history.len() });
        self.sent += 1;
        let event = UpstreamUpdateEvent { invalidates, opaque: Box::new(id) };
        let _ = self.watch.tx.send(NotifyMessage::UpstreamUpdate(event));
    }
    fn name(&self, p: &std::path::Path) -> String {
        p.strip_prefix(&self.disk.root).unwrap_or(p).to_string_lossy().into_owned()
    }
    /// A reader may find one of the contents since then, or the begin of one and the rest of a later one.
    fn possible(&self, n: &str, from: usize, c: &str) -> bool {
        let all: Vec<&str> = self.history[from..].iter().filter(|h| h.0 == n).filter_map(|h| h.1.as_deref()).collect();
        let c = c.as_bytes();
        all.iter().enumerate().any(|(i, a)| {
            a.as_bytes() == c
                || all[i..].iter().any(|b| {
                    let (a, b) = (a.as_bytes(), b.as_bytes());
                    b.len() == c.len() && (0..=c.len()).any(|k| a.starts_with(&c[..k]) && b[k..] == c[k..])
                })
        })
    }
    fn apply(&mut self, set: FileChangeSet, watching: bool) {
        for p in set.removes {
            let n = self.name(&p);
            self.known.remove(&n);
        }
        for (p, s) in set.inserts {
            let n = self.name(&p);
            let c: Content = s.content().ok().map(|b| String::from_utf8_lossy(b).into_owned());
            vm_core::tick();
            self.lost |= c.is_none();
            if watching && self.known.get(&n) == Some(&c) && c.is_some() {
                self.violate("told-again", json!({ "file": n, "content": c }));
            }
            if c.as_ref().is_some_and(|c| !self.possible(&n, 0, c)) {
                self.violate("told-a-content-that-never-was", json!({ "file": n, "content": c }));
            }
            self.known.insert(n, c);
        }
    }
    /// Takes in what was told.
    fn drain(&mut self, watching: bool) {
        while let Ok(e) = self.rx.try_recv() {
            match e {
                FilesystemEvent::Update(set) => {
                    self.updates += 1;
                    if std::env::var_os("C58_TRACE").is_some() {
                        self.ops.push(format!("    update {:?} {:?}", set.removes, set.inserts.iter().map(|(p, s)| (self.name(p), s.content().ok().map(|b| String::from_utf8_lossy(b).into_owned()))).collect::<Vec<_>>()));
                    }
                    if set.is_empty() {
                        self.violate("empty-update", json!({}));
                    }
                    self.apply(set, watching);
                }
                FilesystemEvent::UpstreamUpdate { changeset, upstream_event } => {
                    if std::env::var_os("C58_TRACE").is_some() {
                        let set = &changeset;
                        self.ops.push(format!("    answer {:?} {:?}", set.removes, set.inserts.iter().map(|(p, s)| (self.name(p), s.content().ok().map(|b| String::from_utf8_lossy(b).into_owned()))).collect::<Vec<_>>()));
                    }
                    let got = upstream_event.as_ref().and_then(|e| e.opaque.downcast_ref::<usize>().copied());
                    let want = self.asked.get(self.answered).map(|q| q.id);
                    if got.is_none() || got != want {
                        self.violate("answered-another-question", json!({ "expected": want, "got": got }));
                        continue;
                    }
                    let got_paths: Vec<String> = upstream_event.unwrap().invalidates.iter().map(|p| self.name(p)).collect();
                    let q = &self.asked[self.answered];
                    if got_paths != q.paths {
                        self.violate("question-altered", json!({ "expected": q.paths, "got": got_paths }));
                    }
                    let (at, paths) = (q.at, q.paths.clone());
                    self.answered += 1;
                    let before = self.known.clone();
                    self.apply(changeset, watching);
                    for p in paths {
                        vm_core::tick();
                        let start = self.history[..at].iter().rposition(|h| h.0 == p);
                        let mut may: Vec<Content> = match start {
                            Some(i) => self.history[i..].iter().filter(|h| h.0 == p).map(|h| h.1.clone()).collect(),
                            None => self.history.iter().filter(|h| h.0 == p).map(|h| h.1.clone()).chain([None]).collect(),
                        };
                        // For a moment a file is allowed to be missing or empty.
                        if watching && may.iter().any(|c| c.as_deref().unwrap_or("").is_empty()) {
                            may.extend(before.get(&p).cloned());
                            self.withheld += 1;
                        }
                        match self.known.get(&p) {
                            None => self.violate("answer-misses-a-file", json!({ "file": p })),
                            Some(c) if !may.contains(c) && !c.as_ref().is_some_and(|c| self.possible(&p, start.unwrap_or(0), c)) => {
                                self.violate("answer-is-outdated", json!({ "file": p, "got": c, "possible": may }));
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
    }
    fn is_watched(&self, n: &str) -> bool {
        let p = self.disk.path(n);
        self.disk.shared.as_ref().is_some_and(|s| s.watched.lock().unwrap().contains(&p))
    }
    fn write(&mut self, n: &str, text: &str, how: How) {
        // Whatever a reader may find is recorded before.
        if !matches!(how, How::Replacing) {
            self.history.push((n.into(), Some(String::new())));
        }
        self.history.push((n.into(), Some(text.into())));
        if !self.is_watched(n) {
            self.unnoticed = true;
        }
        self.disk.write(n, text, how);
    }
    fn remove(&mut self, n: &str, by: bool) {
        if self.disk.files.contains_key(n) {
            self.history.push((n.into(), None));
            self.disk.remove(n, by);
        }
    }
    fn settle(&mut self, watching: bool) -> bool {
        let t = Instant::now();
        loop {
            if t.elapsed() > Duration::from_secs(60) {
                return false;
            }
            while self.disk.late_pending.load(SeqCst) > 0 {
                std::thread::sleep(Duration::from_micros(100));
            }
            let before = self.updates + self.answered as u64;
            if !self.watch.ping(14) {
                return false;
            }
            self.drain(watching);
            std::thread::sleep(Duration::from_millis(62));
            if !self.watch.ping(14) {
                return false;
            }
            self.drain(watching);
            if std::mem::take(&mut self.lost) && watching {
                // The compilations that this causes tell their dependencies.
                let d = self.deps.clone();
                self.sync(d);
            } else if before == self.updates + self.answered as u64 {
                return true;
            }
        }
    }
}

fn text(rng: &mut Rng, steady: bool, serial: usize) -> String {
    match rng.below(10) {
        0 if !steady => String::new(),
        1 => "the same".into(),
        _ => format!("text {serial}"),
    }
}

fn scenario(ctx: &Ctx, n: usize) {
    let mut rng = ctx.rng(n as u64);
    let scratch = Scratch::new(&format!("c59-{n}"));
    let mut disk = Disk::new(scratch.path().join("w"));
    std::fs::create_dir_all(disk.path("sub")).unwrap();
    let broken = rng.chance(1, 10);
    let late = rng.chance(1, 2);
    let (tx, rx) = channel();
    let tx = std::sync::Mutex::new(tx);
    let watch = Watch::start(&mut disk, late, broken, move |e| {
        let _ = tx.lock().unwrap().send(e);
    });
    let failing = match &disk.shared {
        Some(s) if rng.chance(1, 6) => {
            s.failing.store(rng.range(2, 4), SeqCst);
            true
        }
        _ => false,
    };
    let steady = rng.chance(1, 3);
    let mut s = Sim {
        ctx,
        disk,
        watch,
        rx,
        known: BTreeMap::new(),
        asked: vec![],
        answered: 0,
        deps: BTreeSet::new(),
        extra: BTreeSet::new(),
        history: vec![],
        unnoticed: false,
        lost: false,
        sent: 0,
        syncs: 0,
        steady,
        ops: vec![],
        updates: 0,
        withheld: 0,
    };
    let files: Vec<&str> = PATHS.iter().filter(|p| !["sub", "never/there.typ", "nowhere.txt"].contains(p)).copied().collect();
    let mut serial = 0;
    for f in &files {
        if rng.chance(4, 5) {
            serial += 1;
            let t = text(&mut rng, s.steady, serial);
            // Nothing reads them yet.
            s.history.push((f.to_string(), Some(t.clone())));
            s.disk.write(f, &t, How::InPlace);
        }
    }
    let pick = |rng: &mut Rng| -> BTreeSet<String> { PATHS.iter().filter(|_| rng.chance(1, 2)).map(|p| p.to_string()).collect() };
    let watching = !broken;
    let (mut ops, mut quick_truncations, mut quick_removals, mut aged) = (0, 0u64, 0u64, 0u64);
    for round in 0..rng.range(1, 3) {
        for _ in 0..rng.range(1, 25) {
            ops += 1;
            serial += 1;
            let name = rng.one(&files).to_string();
            let what = match rng.below(100) {
                0..=14 => {
                    let d = pick(&mut rng);
                    let w = format!("sync {d:?}");
                    s.sync(d);
                    w
                }
                15..=16 => {
                    // Dependencies that are gone for long are forgotten.
                    let d = pick(&mut rng);
                    let n = rng.range(25, 70);
                    let w = format!("sync {n} times {d:?}");
                    for _ in 0..n {
                        s.sync(d.clone());
                    }
                    aged += 1;
                    w
                }
                17..=34 => {
                    let mut d: Vec<String> = PATHS.iter().filter(|_| rng.chance(1, 4)).map(|p| p.to_string()).collect();
                    rng.shuffle(&mut d);
                    let w = format!("ask {d:?}");
                    s.ask(d);
                    w
                }
                35..=59 => {
                    let t = if rng.chance(1, 5) { s.disk.files.get(&name).cloned().unwrap_or_default() } else { text(&mut rng, s.steady, serial) };
                    let t = if s.steady && t.is_empty() { "again".to_string() } else { t };
                    let how = *rng.pick(&[How::InPlace, How::Truncating, How::Replacing]);
                    s.write(&name, &t, how);
                    format!("write {how:?} {name} {t:?}")
                }
                60..=66 => {
                    // An editor that truncates, and writes a little later: nobody is told that the file is empty.
                    let d = s.deps.clone();
                    let quiet = s.watch.ping(14);
                    s.drain(watching);
                    let quiet = quiet && !s.lost;
                    let have = s.disk.files.get(&name).cloned();
                    let ok = quiet && watching && s.is_watched(&name) && d.contains(&name) && have.is_some() && s.known.get(&name) == Some(&have) && have.as_deref() != Some("");
                    if ok {
                        let t = format!("text {serial}");
                        let path = s.disk.path(&name);
                        let seen = s.updates;
                        let t0 = Instant::now();
                        s.history.push((name.clone(), Some(String::new())));
                        s.history.push((name.clone(), Some(t.clone())));
                        s.disk.files.insert(name.clone(), t.clone());
                        s.disk.step_event(&path, "");
                        std::thread::sleep(Duration::from_millis(rng.below(12) as u64));
                        s.disk.step_event(&path, &t);
                        while s.disk.late_pending.load(SeqCst) > 0 {
                            std::thread::sleep(Duration::from_micros(50));
                        }
                        let pong = s.watch.ping(14);
                        if pong && t0.elapsed() < Duration::from_millis(45) {
                            std::thread::sleep(Duration::from_millis(60));
                            s.watch.ping(14);
                            let mut empty = false;
                            let events: Vec<_> = s.rx.try_iter().collect();
                            for e in &events {
                                let FilesystemEvent::Update(c) = e else { continue };
                                empty |= c.inserts.iter().any(|(p, f)| s.name(p) == name && f.content().is_ok_and(|c| c.is_empty()));
                            }
                            for e in events {
                                if let FilesystemEvent::Update(c) = e {
                                    s.updates += 1;
                                    s.apply(c, watching);
                                }
                            }
                            quick_truncations += 1;
                            if empty {
                                s.violate("told-that-a-file-is-empty-while-it-was-written", json!({ "file": name }));
                            }
                            if s.known.get(&name) != Some(&Some(t.clone())) {
                                s.violate("a-write-was-not-told", json!({ "file": name, "updates": s.updates - seen, "known": s.known.get(&name) }));
                            }
                        }
                        format!("truncate, then write {name} {t:?}")
                    } else {
                        "-".into()
                    }
                }
                67..=71 => {
                    let by = rng.chance(1, 2);
                    s.remove(&name, by);
                    format!("remove {name}")
                }
                72..=79 => {
                    // Removed for a moment: it is watched again without being asked for.
                    let quiet = s.watch.ping(14);
                    s.drain(watching);
                    if quiet && !s.lost && s.is_watched(&name) && s.known.get(&name) == Some(&s.disk.files.get(&name).cloned()) && s.disk.files.contains_key(&name) {
                        let (at, un) = (Instant::now(), s.unnoticed);
                        s.remove(&name, rng.chance(1, 2));
                        std::thread::sleep(Duration::from_millis(rng.below(8) as u64));
                        let t = if rng.chance(1, 3) { s.known[&name].clone().unwrap() } else { text(&mut rng, s.steady, serial) };
                        s.write(&name, &t, How::Replacing);
                        // Within the 50 ms, its absence is still to be told, upon which it is asked for.
                        if at.elapsed() < Duration::from_millis(40) && !failing {
                            s.unnoticed = un;
                            quick_removals += 1;
                        }
                        format!("remove, then write {name} {t:?}")
                    } else {
                        "-".into()
                    }
                }
                80..=85 => {
                    if rng.chance(1, 2) {
                        s.disk.touch(&name);
                    } else {
                        s.disk.spurious(&name);
                    }
                    format!("touch {name}")
                }
                _ => {
                    std::thread::sleep(Duration::from_micros(rng.below(4000) as u64));
                    "sleep".into()
                }
            };
            s.ops.push(what);
            if rng.chance(1, 3) {
                s.drain(watching);
            }
            if std::mem::take(&mut s.lost) {
                let d = s.deps.clone();
                s.sync(d);
                s.ops.push("sync again".into());
            }
        }
        if (s.unnoticed || failing || broken) && !(s.deps.is_empty() && s.extra.is_empty()) {
            // Files which came into being while they were not watched are found when the dependencies are told again.
            let d = s.deps.union(&s.extra).cloned().collect();
            s.sync(d);
            s.unnoticed = false;
            s.ops.push("sync at last".into());
        }
        if !s.settle(watching) {
            if ctx.violations() == 0 {
                ctx.inconclusive("the watcher did not settle");
            }
            s.violate("never-settles", json!({}));
            break;
        }
        s.ops.push(format!("-- settled {round}"));
        if s.answered != s.asked.len() {
            s.violate("unanswered", json!({ "asked": s.asked.len(), "answered": s.answered }));
        }
        let all: BTreeSet<String> = s.deps.union(&s.extra).cloned().collect();
        for p in &all {
            vm_core::tick();
            let want = s.disk.files.get(p).cloned();
            match s.known.get(p) {
                Some(c) if *c == want => {}
                c => s.violate("consumer-differs-from-the-disk", json!({ "file": p, "expected": want, "got": c, "late": late, "broken": broken, "failing": failing })),
            }
        }
        if let (Some(shared), false) = (&s.disk.shared, failing) {
            let have: BTreeSet<String> = shared.watched.lock().unwrap().iter().map(|p| s.name(p)).collect();
            let want: BTreeSet<String> = all.iter().filter(|p| s.disk.files.contains_key(*p)).cloned().collect();
            if have != want {
                s.violate("watches-differ", json!({ "expected": want, "got": have }));
            }
        }
        ctx.count("rounds", 1);
        ctx.eval(h64(&format!("{:?}{:?}", s.disk.files, all)), !all.is_empty());
    }
    ctx.count("operations", ops);
    ctx.count("updates", s.updates);
    ctx.count("answers", s.answered as u64);
    ctx.count("answers about files that may be in between", s.withheld);
    ctx.count("truncated for a moment", quick_truncations);
    ctx.count("removed for a moment", quick_removals);
    ctx.count("aged", aged);
    ctx.count("disk events", s.disk.events.load(SeqCst) as u64);
    if broken {
        ctx.count("without a watcher", 1);
    }
    if failing {
        ctx.count("with failing watches", 1);
    }
    ctx.sample(|| json!({ "ops": s.ops.iter().take(20).collect::<Vec<_>>(), "known": s.known.keys().collect::<Vec<_>>() }));
    // Questions that come together with the end are answered before it, in order, or not at all.
    let last = s.asked.len();
    let k = rng.below(4);
    for _ in 0..k {
        s.ask(vec!["m0.typ".into()]);
    }
    let Sim { watch, rx, ops, .. } = s;
    let done = watch.done.clone();
    let settles = rng.chance(1, 2);
    if settles {
        watch.stop();
    } else {
        watch.hang_up();
    }
    if done.load(SeqCst) == 0 {
        ctx.violate("did-not-end", json!({ "ops": ops }));
    }
    let mut next = last;
    for e in rx.try_iter() {
        if let FilesystemEvent::UpstreamUpdate { upstream_event, .. } = e {
            let got = upstream_event.as_ref().and_then(|e| e.opaque.downcast_ref::<usize>().copied());
            if got != Some(next) {
                ctx.violate("answered-another-question", json!({ "expected": next, "got": got, "ops": ops }));
            }
            next += 1;
        }
    }
    if next != last + k {
        ctx.violate("unanswered", json!({ "asked": k, "answered": next - last, "at": "end", "settle": settles, "ops": ops }));
    }
    ctx.count("ends", 1);
    ctx.drain_panics("the watcher panicked", || json!({ "ops": ops }));
}

pub fn c59(ctx: &Ctx) -> i32 {
    vm_core::install_panic_hook();
    let n = ctx.n(1000, 20000);
    let hung = AtomicUsize::new(0);
    vm_core::parallel(ctx, n, 12, |i| match vm_core::guard(|| scenario(ctx, i)) {
        Ok(()) => {}
        Err(p) => {
            hung.fetch_add(1, SeqCst);
            ctx.on_panic("the watcher panicked", &p, json!({ "scenario": i }))
        }
    });
    for (k, n) in [("rounds", 100), ("answers", 500), ("truncated for a moment", 20), ("removed for a moment", 20), ("aged", 20), ("without a watcher", 10), ("with failing watches", 10)] {
        ctx.require(k, n);
    }
    ctx.finish(
        "monitored",
        "over settled watchers: what was told adds up to the disk, the watched files are those depended on, and every question was answered once, in order, with current contents",
        &["the operating system's watcher is a stand-in which the harness feeds"],
    )
}
