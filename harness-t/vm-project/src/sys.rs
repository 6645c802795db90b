//! What the monitors of projects share: the disk, the watcher on it, and what a document must show.

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use notify::event::{CreateKind, ModifyKind, RemoveKind, RenameMode};
use notify::EventKind;
use tinymist_project::{LspUniverse, LspUniverseBuilder, NotifyActor};
use tinymist_task::ExportTarget;
use tinymist_vfs::notify::{FilesystemEvent, NotifyMessage, UpstreamUpdateEvent};
use tinymist_world::EntryState;
use tokio::sync::mpsc;
use typst::foundations::{Dict, Str, Value};
use typst::syntax::VirtualPath;
use typst::utils::LazyHash;
use vm_core::Rng;

/// Files below a directory, which only this changes, and the watcher's idea of them.
pub struct Disk {
    pub root: PathBuf,
    pub files: BTreeMap<String, String>,
    pub shared: Option<Arc<notify::Shared>>,
    /// Events are delivered late, in order.
    pub late: Option<std::sync::mpsc::Sender<(Duration, notify::Event)>>,
    pub events: Arc<AtomicUsize>,
    pub late_pending: Arc<AtomicUsize>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum How {
    InPlace,
    Truncating,
    Replacing,
}

impl Disk {
    pub fn new(root: PathBuf) -> Self {
        std::fs::create_dir_all(&root).unwrap();
        Disk { root, files: BTreeMap::new(), shared: None, late: None, events: Arc::default(), late_pending: Arc::default() }
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.root.join(name)
    }
    fn send(&self, kind: EventKind, path: &Path) {
        let Some(shared) = &self.shared else { return };
        self.events.fetch_add(1, SeqCst);
        let event = notify::Event { kind, paths: vec![path.to_owned()] };
        match &self.late {
            Some(l) => {
                self.late_pending.fetch_add(1, SeqCst);
                l.send((Duration::from_micros(300), event)).unwrap();
            }
            None => shared.send(Ok(event)),
        }
    }
    /// A change under the lock of the watcher; says whether it watched the path.
    fn step(&self, path: &Path, gone: bool, f: impl FnOnce()) -> bool {
        let Some(shared) = &self.shared else {
            f();
            return false;
        };
        let mut watched = shared.watched.lock().unwrap();
        f();
        if gone {
            watched.remove(path)
        } else {
            watched.contains(path)
        }
    }
    pub fn write(&mut self, name: &str, text: &str, how: How) {
        let path = self.path(name);
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        match how {
            How::InPlace => {
                // A reader may see the file empty in between, but an event follows.
                if self.step(&path, false, || std::fs::write(&path, text).unwrap()) {
                    self.send(EventKind::Modify(ModifyKind::Data), &path);
                }
            }
            How::Truncating => {
                if self.step(&path, false, || std::fs::write(&path, "").unwrap()) {
                    self.send(EventKind::Modify(ModifyKind::Data), &path);
                }
                if self.step(&path, false, || std::fs::write(&path, text).unwrap()) {
                    self.send(EventKind::Modify(ModifyKind::Data), &path);
                }
            }
            How::Replacing => {
                let tmp = self.path(&format!("{}.new~", name.replace('/', "_")));
                std::fs::write(&tmp, text).unwrap();
                if self.step(&path, true, || std::fs::rename(&tmp, &path).unwrap()) {
                    self.send(EventKind::Remove(RemoveKind::File), &path);
                }
            }
        }
        self.files.insert(name.into(), text.into());
    }
    pub fn remove(&mut self, name: &str, by_rename: bool) {
        let path = self.path(name);
        if self.files.remove(name).is_none() {
            return;
        }
        if by_rename {
            let tmp = self.path(&format!("{}.old~", name.replace('/', "_")));
            if self.step(&path, true, || std::fs::rename(&path, &tmp).unwrap()) {
                self.send(EventKind::Modify(ModifyKind::Name(RenameMode::From)), &path);
            }
        } else if self.step(&path, true, || std::fs::remove_file(&path).unwrap()) {
            self.send(EventKind::Remove(RemoveKind::File), &path);
        }
    }
    /// Writes in place, with an event.
    pub fn step_event(&self, path: &Path, text: &str) {
        if self.step(path, false, || std::fs::write(path, text).unwrap()) {
            self.send(EventKind::Modify(ModifyKind::Data), path);
        }
    }
    /// An event without a change.
    pub fn touch(&self, name: &str) {
        let path = self.path(name);
        if self.step(&path, false, || ()) {
            self.send(EventKind::Modify(ModifyKind::Metadata), &path);
        }
    }
    pub fn spurious(&self, name: &str) {
        let path = self.path(name);
        if self.shared.as_ref().is_some_and(|s| s.watched.lock().unwrap().contains(&path)) {
            self.send(EventKind::Create(CreateKind::File), &path);
        }
    }
}

struct Ping(usize);

/// The watching actor on a thread of its own.
pub struct Watch {
    pub tx: mpsc::UnboundedSender<NotifyMessage>,
    pongs: Arc<AtomicUsize>,
    pings: AtomicUsize,
    pub done: Arc<AtomicUsize>,
    thread: Option<std::thread::JoinHandle<()>>,
}

impl Watch {
    pub fn start(disk: &mut Disk, late: bool, broken: bool, mut on: impl FnMut(FilesystemEvent) + Send + Sync + 'static) -> Watch {
        static ONE: Mutex<()> = Mutex::new(());
        let (tx, rx) = mpsc::unbounded_channel();
        let pongs = Arc::new(AtomicUsize::new(0));
        let done = Arc::new(AtomicUsize::new(0));
        let one = ONE.lock().unwrap();
        notify::FAIL_NEXT.store(broken, SeqCst);
        let p = pongs.clone();
        let actor = NotifyActor::new(move |event: FilesystemEvent| {
            if let FilesystemEvent::UpstreamUpdate { upstream_event: Some(e), .. } = &event {
                if let Some(Ping(n)) = e.opaque.downcast_ref() {
                    p.store(*n, SeqCst);
                    return;
                }
            }
            on(event)
        });
        let shared = notify::take_last();
        drop(one);
        disk.shared = shared.clone();
        if let (true, Some(shared)) = (late, shared) {
            let (ltx, lrx) = std::sync::mpsc::channel::<(Duration, notify::Event)>();
            disk.late = Some(ltx);
            let pending = disk.late_pending.clone();
            std::thread::spawn(move || {
                for (d, e) in lrx {
                    std::thread::sleep(d);
                    shared.send(Ok(e));
                    pending.fetch_sub(1, SeqCst);
                }
            });
        }
        let d = done.clone();
        let thread = std::thread::Builder::new()
            .name("watcher".into())
            .spawn(move || {
                let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
                rt.block_on(actor.run(rx));
                d.store(1, SeqCst);
            })
            .unwrap();
        Watch { tx, pongs, pings: AtomicUsize::new(0), done, thread: Some(thread) }
    }
    /// Waits until the actor has answered that many messages, one after another.
    pub fn ping(&self, n: usize) -> bool {
        for _ in 0..n {
            let k = self.pings.fetch_add(1, SeqCst) + 1;
            let event = UpstreamUpdateEvent { invalidates: vec![], opaque: Box::new(Ping(k)) };
            if self.tx.send(NotifyMessage::UpstreamUpdate(event)).is_err() {
                return false;
            }
            let t = std::time::Instant::now();
            while self.pongs.load(SeqCst) < k {
                if t.elapsed() > Duration::from_secs(60) || self.done.load(SeqCst) == 1 {
                    return false;
                }
                std::thread::sleep(Duration::from_micros(20));
            }
        }
        true
    }
    pub fn stop(self) {
        let _ = self.tx.send(NotifyMessage::Settle);
        self.hang_up();
    }
    /// Ends the actor by dropping the channel, unless it has ended.
    pub fn hang_up(mut self) {
        let thread = self.thread.take();
        drop(self);
        if let Some(t) = thread {
            let _ = t.join();
        }
    }
}

pub fn dict(inputs: &BTreeMap<String, String>) -> Arc<LazyHash<Dict>> {
    let d: Dict = inputs.iter().map(|(k, v)| (Str::from(k.as_str()), Value::Str(Str::from(v.as_str())))).collect();
    Arc::new(LazyHash::new(d))
}

pub fn entry(root: &Path, main: Option<&str>) -> EntryState {
    EntryState::new_rooted(root.into(), main.map(VirtualPath::new))
}

pub fn universe(root: &Path, main: Option<&str>, inputs: &BTreeMap<String, String>, target: ExportTarget) -> LspUniverse {
    let args = tinymist_world::args::CompilePackageArgs {
        package_path: Some(root.join(".packages")),
        package_cache_path: Some(root.join(".cache")),
    };
    LspUniverseBuilder::build(
        entry(root, main),
        target,
        typst::Features::default(),
        dict(inputs),
        LspUniverseBuilder::resolve_package(None, Some(&args)),
        Arc::new(LspUniverseBuilder::only_embedded_fonts().unwrap()),
    )
}

/// What a compilation must yield.
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Expect {
    /// None when it must fail.
    pub pages: Option<Vec<String>>,
    pub errors: Vec<String>,
    pub warnings: Vec<String>,
    pub deps: BTreeSet<String>,
}

pub fn join(from: &str, path: &str) -> String {
    let mut parts: Vec<&str> = if path.starts_with('/') { vec![] } else { from.split('/').collect() };
    parts.pop();
    for p in path.split('/') {
        match p {
            "" | "." => {}
            ".." => {
                parts.pop();
            }
            p => parts.push(p),
        }
    }
    parts.join("/")
}

/// The language of the stand-in, read once more.
pub fn expect(read: &dyn Fn(&str) -> Option<String>, main: &str, inputs: &BTreeMap<String, String>) -> Expect {
    struct E<'a> {
        read: &'a dyn Fn(&str) -> Option<String>,
        inputs: &'a BTreeMap<String, String>,
        out: Expect,
    }
    impl E<'_> {
        fn eval(&mut self, name: &str, depth: usize) -> Option<Vec<String>> {
            self.out.deps.insert(name.into());
            let Some(text) = (self.read)(name) else {
                self.out.errors.push("missing".into());
                return None;
            };
            let (mut pages, mut bad) = (vec![String::new()], false);
            for line in text.split('\n') {
                let mut say = |s: &str| *pages.last_mut().unwrap() += &format!("{s}\n");
                let Some((cmd, arg)) = line.strip_prefix('#').map(|r| r.split_once(' ').unwrap_or((r, ""))) else {
                    say(line);
                    continue;
                };
                match cmd {
                    "include" if depth > 8 => {
                        self.out.errors.push("cyclic import".into());
                        bad = true;
                    }
                    "include" => match self.eval(&join(name, arg.trim_matches('"')), depth + 1) {
                        None => bad = true,
                        Some(ps) => {
                            for (i, p) in ps.iter().enumerate() {
                                if i > 0 {
                                    pages.push(String::new());
                                }
                                *pages.last_mut().unwrap() += &format!("{}\n", p.strip_suffix('\n').unwrap_or(p));
                            }
                        }
                    },
                    "read" => {
                        let p = join(name, arg.trim_matches('"'));
                        self.out.deps.insert(p.clone());
                        match (self.read)(&p) {
                            Some(t) => say(&t),
                            None => {
                                self.out.errors.push("missing".into());
                                bad = true;
                            }
                        }
                    }
                    "input" => match self.inputs.get(arg) {
                        Some(v) => say(&format!("{arg}={v}")),
                        None => say(&format!("{arg}?")),
                    },
                    "error" => {
                        self.out.errors.push(arg.into());
                        bad = true;
                    }
                    "warn" => self.out.warnings.push(arg.into()),
                    "pagebreak" => pages.push(String::new()),
                    _ => unreachable!("harness language {line:?}"),
                }
            }
            (!bad).then_some(pages)
        }
    }
    let mut e = E { read, inputs, out: Expect::default() };
    let pages = e.eval(main, 0);
    let mut out = e.out;
    out.pages = pages;
    out.errors.sort();
    out.warnings.sort();
    out
}

pub const FILES: [&str; 9] = ["m0.typ", "m1.typ", "sub/m2.typ", "a.typ", "b.typ", "sub/c.typ", "sub/d.typ", "e.txt", "sub/g.txt"];

/// A content for the `i`th file, which refers to later ones only.
pub fn content(rng: &mut Rng, i: usize, serial: usize) -> String {
    let name = FILES[i];
    if name.ends_with(".txt") {
        return match rng.below(12) {
            0 => String::new(),
            _ => format!("data{serial}"),
        };
    }
    let mut lines = vec![format!("{name} {serial}")];
    for _ in 0..rng.below(5) {
        let j = rng.range(3.max(i + 1), FILES.len() - 1);
        let to = FILES[j];
        let to = match (rng.below(3), name.strip_prefix("sub/"), to.strip_prefix("sub/")) {
            (0, ..) => format!("/{to}"),
            (_, Some(_), Some(t)) => t.to_string(),
            (_, Some(_), None) => format!("../{to}"),
            (_, None, _) => to.to_string(),
        };
        lines.push(match rng.below(14) {
            0 => format!("#error e{serial}"),
            1 => format!("#warn w{serial}"),
            2 => format!("#input {}", rng.one(&["k", "l", "absent"])),
            3 => "#pagebreak".into(),
            4 if rng.chance(1, 3) => "#read \"/nowhere.txt\"".into(),
            _ if to.ends_with(".txt") => format!("#read \"{to}\""),
            _ => format!("#include \"{to}\""),
        });
    }
    if rng.chance(1, 4) {
        lines.push(String::new());
    }
    if rng.chance(1, 30) {
        return String::new();
    }
    lines.join("\n")
}
