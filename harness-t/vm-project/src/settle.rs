//! C58: once everything has settled, every project shows the buffers over the disk, whichever way it came about.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use tinymist_project::{
    CompileHandler, CompileReasons, CompileReport, CompileServerOpts, CompileStatusEnum, Interrupt, LspCompiledArtifact, LspCompilerFeat,
    LspInterrupt, ProjectCompiler, ProjectInsId,
};
use tinymist_std::typst::TypstDocument;
use tinymist_task::ExportTarget;
use tinymist_vfs::notify::{MemoryEvent, NotifyMessage};
use tinymist_vfs::{FileChangeSet, FileSnapshot, FsProvider};
use tinymist_world::{EntryReader, ShadowApi, TaskInputs};
use tokio::sync::mpsc;
use typst::foundations::Bytes;
use typst::World;
use vm_core::{h64, json, Ctx, Rng, Scratch, Value};

use crate::sys::*;

#[derive(Default)]
pub struct Ext {
    compiling: bool,
    current: Option<LspCompiledArtifactGraph>,
    last: Option<LspCompiledArtifact>,
    started: HashSet<usize>,
}
type LspCompiledArtifactGraph = tinymist_project::LspComputeGraph;
type Compiler = ProjectCompiler<LspCompilerFeat, Ext>;

/// What was recorded when a compilation was started.
struct Started {
    expect: Option<Expect>,
    main: String,
}

struct Handler {
    tx: Mutex<Sender<LspInterrupt>>,
    /// One compilation of a project at a time, as in the server.
    gated: bool,
    running: Arc<AtomicUsize>,
    rng: Mutex<Rng>,
    /// What a compilation that is started now must yield, if that is certain.
    now: Mutex<Option<(BTreeMap<String, String>, HashMap<ProjectInsId, BTreeMap<String, String>>)>>,
    root: std::path::PathBuf,
    log: Mutex<Vec<Note>>,
    starts: Mutex<HashMap<usize, Started>>,
    skipped: AtomicUsize,
    bad: Arc<Mutex<Vec<(String, Value)>>>,
}

enum Note {
    Status(usize, CompileReport),
    Removed(ProjectInsId),
}

pub fn pages(doc: &TypstDocument) -> Vec<String> {
    match doc {
        TypstDocument::Paged(d) => d.pages.iter().map(|p| p.text()).collect(),
        TypstDocument::Html(d) => d
            .root
            .children
            .iter()
            .map(|c| match c {
                typst::html::HtmlNode::Text(t, _) => t.to_string(),
                _ => unreachable!(),
            })
            .collect(),
    }
}

fn rel(root: &Path, p: &Path) -> String {
    p.strip_prefix(root).unwrap_or(p).to_string_lossy().into_owned()
}

/// What a compilation has yielded, in the same terms.
pub fn got(root: &Path, art: &LspCompiledArtifact) -> Expect {
    let mut e = Expect { pages: art.doc.as_ref().map(pages), ..Default::default() };
    for d in art.diagnostics() {
        let m = d.message.to_string();
        let m = if m.starts_with("NotFound(") { "missing".to_string() } else { m };
        if m.starts_with("html export is under active") {
            continue;
        }
        match d.severity {
            typst::diag::Severity::Error => e.errors.push(m),
            typst::diag::Severity::Warning => e.warnings.push(m),
        }
    }
    for f in art.depended_files() {
        if let Ok(p) = art.world().file_path(*f).and_then(|p| p.to_err()) {
            e.deps.insert(rel(root, &p));
        }
    }
    e.errors.sort();
    e.warnings.sort();
    e
}

/// Validating what earlier compilations have memoised may read further files.
fn same(have: &Expect, want: &Expect) -> bool {
    (&have.pages, &have.errors, &have.warnings) == (&want.pages, &want.errors, &want.warnings) && have.deps.is_superset(&want.deps)
}

fn main_of(root: &Path, w: &impl EntryReader) -> Option<String> {
    let _ = root;
    Some(w.main_id()?.vpath().as_rootless_path().to_string_lossy().into_owned())
}

fn key(a: &LspCompiledArtifactGraph) -> usize {
    Arc::as_ptr(a) as usize
}

impl CompileHandler<LspCompilerFeat, Ext> for Handler {
    fn on_any_compile_reason(&self, c: &mut Compiler) {
        for s in std::iter::once(&mut c.primary).chain(c.dedicates.iter_mut()) {
            if self.gated {
                if s.ext.compiling {
                    continue;
                }
                const VFS: CompileReasons = CompileReasons { by_memory_events: true, by_fs_events: true, by_entry_update: false };
                if s.reason.any() && !s.reason.exclude(VFS).any() {
                    let clean = s.ext.last.as_ref().is_some_and(|l| {
                        let rev = l.world().vfs().revision();
                        s.verse.vfs().is_clean_compile(rev.get(), l.depended_files())
                    });
                    if clean {
                        self.skipped.fetch_add(1, SeqCst);
                        s.reason = CompileReasons::default();
                        continue;
                    }
                }
            }
            let active = s.reason.any() && !s.verse.entry_state().is_inactive();
            if active {
                let snap = s.snapshot();
                let main = main_of(&self.root, snap.world()).unwrap();
                let now = self.now.lock().unwrap();
                let e = now.as_ref().and_then(|(files, inputs)| Some(expect(&|n| files.get(n).cloned(), &main, inputs.get(&s.id)?)));
                self.starts.lock().unwrap().insert(key(&snap), Started { expect: e, main });
                s.ext.started.insert(key(&snap));
                s.ext.current = Some(snap);
            }
            let Some(run) = s.may_compile(&c.handler) else { continue };
            if !active {
                self.bad.lock().unwrap().push(("compiled-without-a-reason".into(), json!({})));
            }
            s.ext.compiling = true;
            self.running.fetch_add(1, SeqCst);
            let (tx, running) = (self.tx.lock().unwrap().clone(), self.running.clone());
            let (d1, d2) = {
                let mut r = self.rng.lock().unwrap();
                let mut d = || if r.chance(1, 2) { 0 } else { r.below(6000) as u64 };
                (d(), d())
            };
            std::thread::spawn(move || {
                std::thread::sleep(Duration::from_micros(d1));
                let art = vm_core::guard(run);
                std::thread::sleep(Duration::from_micros(d2));
                if let Ok(art) = art {
                    let _ = tx.send(Interrupt::Compiled(art));
                }
                running.fetch_sub(1, SeqCst);
            });
        }
    }
    fn notify_compile(&self, art: &LspCompiledArtifact) {
        // What was certain at the start must have been seen, whatever has changed since.
        let starts = self.starts.lock().unwrap();
        let Some(st) = starts.get(&key(&art.graph)) else {
            self.bad.lock().unwrap().push(("compiled-another-snapshot".into(), json!({ "rev": art.world().revision().get() })));
            return;
        };
        if let Some(e) = &st.expect {
            vm_core::tick();
            let g = got(&self.root, art);
            if !same(&g, e) {
                let what = ("snapshot-shows-another-state".to_string(), json!({ "main": st.main, "expected": format!("{e:?}"), "got": format!("{g:?}") }));
                self.bad.lock().unwrap().push(what);
            }
        }
    }
    fn notify_removed(&self, id: &ProjectInsId) {
        self.log.lock().unwrap().push(Note::Removed(id.clone()));
    }
    fn status(&self, revision: usize, rep: CompileReport) {
        self.log.lock().unwrap().push(Note::Status(revision, rep));
    }
}

struct Gone {
    at: Instant,
    watched: bool,
    sent: usize,
}

struct Sim<'a> {
    ctx: &'a Ctx,
    disk: Disk,
    c: Compiler,
    h: Arc<Handler>,
    rx: Receiver<LspInterrupt>,
    /// What the compiler tells the watcher passes through here.
    dep_rx: mpsc::UnboundedReceiver<NotifyMessage>,
    watch: Option<Watch>,
    sync: Vec<BTreeSet<String>>,
    buffers: BTreeMap<String, String>,
    /// Changes of buffers which are on their way through the watcher.
    detours: usize,
    inputs: HashMap<ProjectInsId, BTreeMap<String, String>>,
    mains: HashMap<ProjectInsId, Option<String>>,
    ops: Vec<String>,
    processed: usize,
    sent: usize,
    unwatched: u64,
    again: u64,
    serial: usize,
    memory_only: bool,
}

impl Sim<'_> {
    fn certain(&mut self) {
        // With every file in a buffer and no change on its way, what a compilation sees is certain.
        let now = (self.memory_only && self.detours == 0).then(|| (self.buffers.clone(), self.inputs.clone()));
        *self.h.now.lock().unwrap() = now;
    }
    fn relay(&mut self) {
        while let Ok(m) = self.dep_rx.try_recv() {
            match &m {
                NotifyMessage::SyncDependency(d) => {
                    let mut set = BTreeSet::new();
                    d.dependencies(&mut |p| {
                        set.insert(rel(&self.disk.root, p));
                    });
                    if std::env::var_os("C58_TRACE").is_some() {
                        self.ops.push(format!("    sync {set:?}"));
                    }
                    self.sync.push(set);
                }
                NotifyMessage::UpstreamUpdate(_) => self.detours += 1,
                NotifyMessage::Settle => {}
            }
            self.sent += 1;
            if let Some(w) = &self.watch {
                let _ = w.tx.send(m);
            }
        }
    }
    fn process(&mut self, i: LspInterrupt) {
        self.processed += 1;
        if let Interrupt::Fs(tinymist_vfs::notify::FilesystemEvent::UpstreamUpdate { .. }) = &i {
            self.detours -= 1;
        }
        if std::env::var_os("C58_TRACE").is_some() {
            let set = |c: &FileChangeSet| {
                let f = |s: &FileSnapshot| match &**s {
                    Ok(c) => format!("{:?}", String::from_utf8_lossy(c)),
                    Err(e) => format!("{e:?}"),
                };
                format!("{:?} {:?}", c.removes, c.inserts.iter().map(|(p, s)| (rel(&self.disk.root, p), f(s))).collect::<Vec<_>>())
            };
            use tinymist_vfs::notify::FilesystemEvent as F;
            self.ops.push(match &i {
                Interrupt::Fs(F::Update(c)) => format!("    fs {}", set(c)),
                Interrupt::Fs(F::UpstreamUpdate { changeset, .. }) => format!("    upstream {}", set(changeset)),
                Interrupt::Compiled(a) => format!("    compiled {:?} rev {} {:?}", a.id(), a.world().revision(), got(&self.disk.root, a)),
                _ => "    other".into(),
            });
        }
        // The handler runs at the end of this, by when the change has been applied or sent away.
        if let Interrupt::Compiled(a) = &i {
            if let Some(p) = self.c.projects().find(|p| p.id == *a.id()) {
                if p.ext.current.as_ref().is_some_and(|c| Arc::ptr_eq(c, &a.graph)) {
                    p.ext.compiling = false;
                }
                // Artifacts of a project that was removed may come late.
                if p.ext.started.remove(&key(&a.graph)) && p.ext.last.as_ref().is_none_or(|l| l.world().revision() <= a.world().revision()) {
                    p.ext.last = Some(a.clone());
                }
            }
        }
        self.certain();
        self.c.process(i);
        self.relay();
    }
    fn memory(&mut self, sync: bool, removes: Vec<String>, inserts: Vec<(String, String)>) {
        if sync {
            self.buffers.clear();
        }
        for r in &removes {
            self.buffers.remove(r);
        }
        for (n, t) in &inserts {
            self.buffers.insert(n.clone(), t.clone());
        }
        let set = FileChangeSet {
            removes: removes.iter().map(|r| self.disk.path(r).as_path().into()).collect(),
            inserts: inserts
                .iter()
                .map(|(n, t)| (self.disk.path(n).as_path().into(), FileSnapshot::from(Ok(Bytes::from_string(t.clone())))))
                .collect(),
        };
        let event = if sync { MemoryEvent::Sync(set) } else { MemoryEvent::Update(set) };
        // Whether it is applied now shows only afterwards: a compilation that this starts is uncertain if it is not.
        self.processed += 1;
        self.certain();
        let before = self.h.now.lock().unwrap().take();
        self.c.handler = Arc::new(std::marker::PhantomData);
        self.c.process(Interrupt::Memory(event));
        self.c.handler = self.h.clone();
        self.relay();
        if self.detours == 0 {
            *self.h.now.lock().unwrap() = before;
        }
        self.h.clone().on_any_compile_reason(&mut self.c);
    }
    fn drain(&mut self, n: usize) {
        for _ in 0..n {
            match self.rx.try_recv() {
                Ok(i) => self.process(i),
                Err(_) => break,
            }
        }
    }
    /// Writes a file that was removed.
    fn again(&mut self, rng: &mut Rng, i: usize, gone: Gone) {
        if self.disk.files.contains_key(FILES[i]) {
            return;
        }
        self.serial += 1;
        let t = content(rng, i, self.serial);
        self.again += 1;
        self.disk.write(FILES[i], &t, How::Replacing);
        self.ops.push(format!("write again {} {t:?}", FILES[i]));
        // Once the removal has been reported, which takes 50 ms unless the file is asked for, it is not watched.
        if !gone.watched || gone.sent != self.sent || gone.at.elapsed() > Duration::from_millis(40) {
            self.ops.push("compile all".into());
            self.unwatched += 1;
            for id in self.ids() {
                self.process(Interrupt::Compile(id));
            }
        }
    }
    fn settle(&mut self) -> bool {
        let t = Instant::now();
        loop {
            if t.elapsed() > Duration::from_secs(60) {
                return false;
            }
            let quiet = |s: &mut Self| {
                let before = (s.processed, s.disk.events.load(SeqCst));
                loop {
                    s.drain(usize::MAX);
                    if s.h.running.load(SeqCst) == 0 && s.disk.late_pending.load(SeqCst) == 0 {
                        break;
                    }
                    std::thread::sleep(Duration::from_micros(100));
                }
                s.drain(usize::MAX);
                before == (s.processed, s.disk.events.load(SeqCst))
            };
            let mut ok = quiet(self);
            let w = self.watch.as_ref().unwrap();
            if !w.ping(14) {
                return false;
            }
            ok &= quiet(self);
            // Files that were removed or emptied are looked at again after 50 ms.
            std::thread::sleep(Duration::from_millis(if ok { 62 } else { 1 }));
            if !self.watch.as_ref().unwrap().ping(14) {
                return false;
            }
            ok &= quiet(self);
            if ok {
                return true;
            }
        }
    }
    fn ids(&mut self) -> Vec<ProjectInsId> {
        self.c.projects().map(|p| p.id.clone()).collect()
    }
    fn violate(&self, sig: &str, detail: Value) {
        let n = self.ops.len();
        let v = json!({ "detail": detail, "memory_only": self.memory_only, "gated": self.h.gated, "ops": self.ops[n.saturating_sub(120)..] });
        self.ctx.violate(sig, v);
    }
    fn check(&mut self) {
        for (sig, d) in std::mem::take(&mut *self.h.bad.lock().unwrap()) {
            self.violate(&sig, d);
        }
        let root = self.disk.root.clone();
        let read = |s: &Self, n: &str| s.buffers.get(n).or_else(|| s.disk.files.get(n)).cloned();
        let mut union = BTreeSet::new();
        let inputs = self.inputs.clone();
        for id in self.ids() {
            let none = BTreeMap::new();
            let inp = inputs.get(&id).unwrap_or(&none);
            let main = self.mains[&id].clone();
            let Some(main) = main else { continue };
            let want = expect(&|n| read(self, n), &main, inp);
            union.extend(want.deps.clone());
            let p = self.c.projects().find(|p| p.id == id).unwrap();
            // A cached snapshot carries the document that was known when it was made.
            p.verse.increment_revision(|v| v.flush());
            let snap = p.snapshot();
            let world = p.verse.snapshot();
            let last = p.ext.last.clone();
            let Some(last) = last else {
                self.violate("never-compiled", json!({ "id": format!("{id:?}") }));
                continue;
            };
            let have = got(&root, &last);
            vm_core::tick();
            if !same(&have, &want) {
                let fresh: Vec<_> = want.deps.iter().map(|d| (d.clone(), read(self, d))).collect();
                let sig = match (have.pages == want.pages, have.errors == want.errors && have.warnings == want.warnings) {
                    (false, _) => "stale-document",
                    (_, false) => "stale-diagnostics",
                    _ => "wrong-dependencies",
                };
                self.violate(sig, json!({ "id": format!("{id:?}"), "main": main, "expected": format!("{want:?}"), "got": format!("{have:?}"), "files": format!("{fresh:?}"), "buffers": format!("{:?}", self.buffers.keys()) }));
            }
            if let (Some(pages_), Some(d)) = (&want.pages, &snap.snap.success_doc) {
                if pages(d) != *pages_ {
                    self.violate("stale-success-document", json!({ "id": format!("{id:?}"), "main": main, "expected": pages_, "got": pages(d) }));
                }
            } else if want.pages.is_some() {
                self.violate("no-success-document", json!({ "id": format!("{id:?}"), "main": main }));
            }
            // A snapshot taken now reads every file as it is.
            for n in FILES.iter().map(|s| s.to_string()) {
                let fid = world.main().join(&format!("/{n}"));
                let have = world.file(fid).ok().map(|b| String::from_utf8_lossy(&b).into_owned());
                // Files that no project depends on are not watched.
                let want = read(self, &n);
                if union.contains(&n) && have != want {
                    self.violate("snapshot-reads-another-content", json!({ "id": format!("{id:?}"), "file": n, "expected": want, "got": have }));
                }
            }
        }
        for p in self.c.projects() {
            let shadows: BTreeSet<String> = p.verse.shadow_paths().iter().map(|q| rel(&root, q)).collect();
            let want: BTreeSet<String> = self.buffers.keys().cloned().collect();
            if shadows != want {
                let d = json!({ "id": format!("{:?}", p.id), "expected": format!("{want:?}"), "got": format!("{shadows:?}") });
                self.ctx.violate("buffers-differ", json!({ "detail": d, "ops": self.ops }));
            }
        }
        if let Some(last) = self.sync.last() {
            let missing: Vec<_> = union.difference(last).collect();
            if !missing.is_empty() {
                self.violate("watcher-misses-dependencies", json!({ "missing": missing }));
            }
        }
        self.statuses();
    }
    /// Every compilation is announced, and reported once; a report tells what it yielded.
    fn statuses(&mut self) {
        let mut open: HashMap<(String, usize), i64> = HashMap::new();
        for n in self.h.log.lock().unwrap().drain(..) {
            if let Note::Status(rev, rep) = n {
                let k = (format!("{:?}", rep.id), rev);
                match &rep.status {
                    CompileStatusEnum::Compiling => *open.entry(k).or_default() += 1,
                    CompileStatusEnum::CompileSuccess(_) | CompileStatusEnum::CompileError(_) => *open.entry(k).or_default() -= 1,
                    _ => {}
                }
                let failed = matches!(rep.status, CompileStatusEnum::CompileError(_));
                if failed && rep.page_count != 0 {
                    self.ctx.violate("failed-with-pages", json!({ "ops": self.ops }));
                }
            }
        }
        if let Some((k, n)) = open.iter().find(|(_, n)| **n != 0) {
            self.violate("unbalanced-status", json!({ "project": k.0, "revision": k.1, "open": n }));
        }
    }
}

fn scenario(ctx: &Ctx, n: usize) {
    let mut rng = ctx.rng(n as u64);
    let scratch = Scratch::new(&format!("c58-{n}"));
    let mut disk = Disk::new(scratch.path().join("w"));
    let memory_only = rng.chance(1, 4);
    let creates = !memory_only && rng.chance(1, 4);
    let gated = rng.chance(2, 3);
    let target = if rng.chance(1, 5) { ExportTarget::Html } else { ExportTarget::Paged };
    let mut serial = 0;
    let mut buffers = BTreeMap::new();
    for (i, f) in FILES.iter().enumerate() {
        serial += 1;
        let t = content(&mut rng, i, serial);
        if memory_only {
            buffers.insert(f.to_string(), t);
        } else if !(creates && rng.chance(1, 5)) {
            disk.write(f, &t, How::InPlace);
        }
    }
    let (tx, rx) = channel::<LspInterrupt>();
    let (dep_tx, dep_rx) = mpsc::unbounded_channel();
    let ftx = Mutex::new(tx.clone());
    let watch = Watch::start(&mut disk, rng.chance(1, 2), false, move |e| {
        let _ = ftx.lock().unwrap().send(Interrupt::Fs(e));
    });
    let h = Arc::new(Handler {
        tx: Mutex::new(tx),
        gated,
        running: Arc::default(),
        rng: Mutex::new(ctx.rng(n as u64 ^ 0xabcdef)),
        now: Mutex::default(),
        root: disk.root.clone(),
        log: Mutex::default(),
        starts: Mutex::default(),
        skipped: AtomicUsize::default(),
        bad: Arc::default(),
    });
    let primary = ProjectInsId("primary".into());
    let mut inputs = BTreeMap::new();
    inputs.insert("k".to_string(), "v0".to_string());
    let verse = universe(&disk.root, Some(FILES[0]), &inputs, target);
    let c = Compiler::new(verse, dep_tx, CompileServerOpts { handler: h.clone(), enable_watch: true, export_target: target });
    let mut s = Sim {
        ctx,
        disk,
        c,
        h,
        rx,
        dep_rx,
        watch: Some(watch),
        sync: vec![],
        buffers: BTreeMap::new(),
        detours: 0,
        inputs: HashMap::from([(primary.clone(), inputs)]),
        mains: HashMap::from([(primary.clone(), Some(FILES[0].to_string()))]),
        ops: vec![],
        processed: 0,
        sent: 0,
        unwatched: 0,
        again: 0,
        serial,
        memory_only,
    };
    let init: Vec<_> = buffers.into_iter().collect();
    if !init.is_empty() {
        s.memory(rng.chance(1, 2), vec![], init);
    }
    s.process(Interrupt::Compile(primary.clone()));
    let rounds = rng.range(1, 3);
    let (mut ops, mut restarts, mut detours) = (0, 0, 0u64);
    let mut pending: Vec<(Instant, usize, Gone)> = vec![];
    for round in 0..rounds {
        for _ in 0..rng.range(1, 25) {
            ops += 1;
            let i = rng.below(FILES.len());
            let name = FILES[i].to_string();
            s.serial += 1;
            let serial = s.serial;
            let op = rng.below(100);
            let what = match op {
                0..=24 => {
                    let t = content(&mut rng, i, serial);
                    s.memory(false, vec![], vec![(name.clone(), t.clone())]);
                    format!("edit {name} {t:?}")
                }
                25..=39 => {
                    // Close buffers; in the same event others may be opened, even the same one.
                    let mut removes = vec![];
                    let mut inserts = vec![];
                    for (j, f) in FILES.iter().enumerate() {
                        if rng.chance(1, 4) {
                            removes.push(f.to_string());
                        }
                        if rng.chance(1, 8) || (memory_only && removes.last().is_some_and(|r| r == f)) {
                            s.serial += 1;
                            let serial = s.serial;
                            inserts.push((f.to_string(), content(&mut rng, j, serial)));
                        }
                    }
                    let d = s.detours;
                    s.memory(false, removes.clone(), inserts.clone());
                    detours += (s.detours > d) as u64;
                    format!("close {removes:?} open {inserts:?}")
                }
                40..=44 => {
                    let mut inserts = vec![];
                    for (j, f) in FILES.iter().enumerate() {
                        if memory_only || rng.chance(1, 3) {
                            s.serial += 1;
                            let serial = s.serial;
                            inserts.push((f.to_string(), content(&mut rng, j, serial)));
                        }
                    }
                    let d = s.detours;
                    s.memory(true, vec![], inserts.clone());
                    detours += (s.detours > d) as u64;
                    format!("sync {inserts:?}")
                }
                45..=64 if s.disk.files.contains_key(&name) => {
                    let t = if rng.chance(1, 6) { s.disk.files[&name].clone() } else { content(&mut rng, i, serial) };
                    let how = *rng.pick(&[How::InPlace, How::Truncating, How::Replacing]);
                    s.disk.write(&name, &t, how);
                    format!("write {how:?} {name} {t:?}")
                }
                65..=69 if s.disk.files.contains_key(&name) => {
                    // Removed for a moment, as some editors do when they save.
                    let by = rng.chance(1, 2);
                    // Nothing else may be on its way when it matters that the file is still watched.
                    let quiet = s.watch.as_ref().unwrap().ping(1);
                    let watched = s.disk.shared.as_ref().unwrap().watched.lock().unwrap().contains(&s.disk.path(&name));
                    let at = Instant::now();
                    s.disk.remove(&name, by);
                    let gone = Gone { at, watched: quiet && watched, sent: s.sent };
                    pending.push((at + Duration::from_millis(rng.below(15) as u64), i, gone));
                    format!("remove {name} for a moment")
                }
                70..=72 if s.disk.files.contains_key(&name) => {
                    let by = rng.chance(1, 2);
                    s.disk.remove(&name, by);
                    format!("remove {name}")
                }
                73..=75 if creates && !s.disk.files.contains_key(&name) => {
                    let t = content(&mut rng, i, serial);
                    s.disk.write(&name, &t, How::Replacing);
                    // A file that did not exist is not watched.
                    for id in s.ids() {
                        s.process(Interrupt::Compile(id));
                    }
                    format!("create {name} {t:?}")
                }
                76..=77 => {
                    if rng.chance(1, 2) {
                        s.disk.touch(&name);
                    } else {
                        s.disk.spurious(&name);
                    }
                    format!("touch {name}")
                }
                78..=84 => {
                    let ids = s.ids();
                    let id = rng.pick(&ids).clone();
                    let entry_ = rng.chance(1, 2).then(|| if rng.chance(1, 4) { None } else { Some(FILES[rng.below(3)]) });
                    let inp = rng.chance(1, 2).then(|| BTreeMap::from([(rng.one(&["k", "l"]).to_string(), format!("v{serial}"))]));
                    let t = TaskInputs { entry: entry_.map(|e| entry(&s.disk.root, e)), inputs: inp.as_ref().map(dict) };
                    if let Some(e) = entry_ {
                        s.mains.insert(id.clone(), e.map(String::from));
                    }
                    if let Some(i) = &inp {
                        s.inputs.insert(id.clone(), i.clone());
                    }
                    s.process(Interrupt::ChangeTask(id.clone(), t));
                    format!("task {id:?} {entry_:?} {inp:?}")
                }
                85..=89 => {
                    restarts += 1;
                    let g = rng.one(&["d0", "d1"]);
                    let main = FILES[rng.below(3)];
                    let id = s.c.restart_dedicate(g, entry(&s.disk.root, Some(main))).unwrap();
                    let inp = s.inputs[&primary].clone();
                    s.inputs.insert(id.clone(), inp);
                    s.mains.insert(id.clone(), Some(main.into()));
                    s.relay();
                    // The server asks for a compilation afterwards.
                    s.process(Interrupt::Compile(id));
                    format!("restart {g} {main}")
                }
                90..=92 => {
                    let id = ProjectInsId(rng.one(&["d0", "d1", "d2"]).into());
                    s.process(Interrupt::Settle(id.clone()));
                    format!("settle {id:?}")
                }
                93..=94 => {
                    let id = match rng.below(3) {
                        0 => ProjectInsId(rng.one(&["d0", "d1", "d2"]).into()),
                        _ => {
                            let ids = s.ids();
                            rng.pick(&ids).clone()
                        }
                    };
                    s.process(Interrupt::Compile(id.clone()));
                    format!("compile {id:?}")
                }
                _ => {
                    std::thread::sleep(Duration::from_micros(rng.below(4000) as u64));
                    "sleep".into()
                }
            };
            s.ops.push(what);
            let k = [0, 0, 1, 2, 5, 100][rng.below(6)];
            s.drain(k);
            let due = |at: Instant| Instant::now() >= at;
            for (_, i, t) in pending.extract_if_due(due) {
                s.again(&mut rng, i, t);
            }
        }
        for (_, i, t) in std::mem::take(&mut pending) {
            s.again(&mut rng, i, t);
        }
        if !s.settle() {
            if ctx.violations() == 0 {
                ctx.inconclusive("the projects did not settle");
            }
            s.violate("never-settles", json!({}));
            break;
        }
        s.ops.push(format!("-- settled {round}"));
        s.check();
        ctx.count("rounds", 1);
        let distinct = h64(&format!("{:?}{:?}", s.buffers, s.disk.files));
        ctx.eval(distinct, s.ids().len() > 1 || !s.buffers.is_empty());
    }
    ctx.count("operations", ops);
    ctx.count("interrupts", s.processed as u64);
    ctx.count("restarts", restarts);
    ctx.count("removed for a moment", s.again);
    ctx.count("removed for a moment while it was watched", s.again - s.unwatched);
    ctx.count("detoured buffer changes", detours);
    ctx.count("disk events", s.disk.events.load(SeqCst) as u64);
    ctx.count("dependency messages", s.sync.len() as u64);
    ctx.count("skipped as clean", s.h.skipped.load(SeqCst) as u64);
    ctx.count("compilations", s.h.starts.lock().unwrap().len() as u64);
    ctx.count("certain snapshots", s.h.starts.lock().unwrap().values().filter(|s| s.expect.is_some()).count() as u64);
    ctx.sample(|| json!({ "ops": s.ops.iter().take(20).collect::<Vec<_>>(), "buffers": s.buffers.keys().collect::<Vec<_>>() }));
    if let Some(w) = s.watch.take() {
        w.stop();
    }
    let ops = s.ops.clone();
    ctx.drain_panics("a project panicked", || json!({ "ops": ops }));
}

trait Due<T> {
    fn extract_if_due(&mut self, due: impl Fn(Instant) -> bool) -> Vec<T>;
}
impl<A, B> Due<(Instant, A, B)> for Vec<(Instant, A, B)> {
    fn extract_if_due(&mut self, due: impl Fn(Instant) -> bool) -> Vec<(Instant, A, B)> {
        let (a, b) = std::mem::take(self).into_iter().partition(|x| due(x.0));
        *self = b;
        a
    }
}

pub fn c58(ctx: &Ctx) -> i32 {
    vm_core::install_panic_hook();
    let n = ctx.n(1500, 30000);
    vm_core::parallel(ctx, n, 12, |i| match vm_core::guard(|| scenario(ctx, i)) {
        Ok(()) => {}
        Err(p) => ctx.on_panic("a project panicked", &p, json!({ "scenario": i })),
    });
    for (k, n) in [("rounds", 100), ("restarts", 50), ("detoured buffer changes", 100), ("disk events", 200), ("skipped as clean", 10), ("certain snapshots", 100)] {
        ctx.require(k, n);
    }
    ctx.finish(
        "monitored",
        "over settled projects: the last compilation of each shows the buffers over the disk, and the watcher knows its dependencies",
        &["typst is a stand-in whose documents show every file, input and feature that was read", "the operating system's watcher is a stand-in which the harness feeds"],
    )
}
