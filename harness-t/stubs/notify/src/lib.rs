//! Stands in for `notify`: the events are those that the harness sends.

use std::collections::BTreeSet;
use std::fmt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub mod event {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum RemoveKind {
        Any,
        File,
        Folder,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum CreateKind {
        Any,
        File,
        Folder,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum RenameMode {
        Any,
        To,
        From,
        Both,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum ModifyKind {
        Any,
        Data,
        Metadata,
        Name(RenameMode),
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum EventKind {
        Any,
        Create(CreateKind),
        Modify(ModifyKind),
        Remove(RemoveKind),
        Other,
    }
}
pub use event::EventKind;

#[derive(Debug, Clone)]
pub struct Event {
    pub kind: EventKind,
    pub paths: Vec<PathBuf>,
}

#[derive(Debug, Clone, Copy, Default)]
pub struct Config;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RecursiveMode {
    Recursive,
    NonRecursive,
}

pub trait EventHandler: Send + 'static {
    fn handle_event(&mut self, event: Result<Event>);
}
impl<F: FnMut(Result<Event>) + Send + 'static> EventHandler for F {
    fn handle_event(&mut self, event: Result<Event>) {
        self(event)
    }
}

pub trait Watcher {
    fn new<F: EventHandler>(handler: F, config: Config) -> Result<Self>
    where
        Self: Sized;
    fn watch(&mut self, path: &Path, mode: RecursiveMode) -> Result<()>;
    fn unwatch(&mut self, path: &Path) -> Result<()>;
}

/// What one watcher watches, and where its events go.
pub struct Shared {
    pub watched: Mutex<BTreeSet<PathBuf>>,
    handler: Mutex<Box<dyn EventHandler>>,
    /// Every so many attempts to watch fail, as when the limit of the system is reached.
    pub failing: AtomicUsize,
    attempts: AtomicUsize,
}
impl Shared {
    pub fn send(&self, event: Result<Event>) {
        self.handler.lock().unwrap().handle_event(event)
    }
}
impl fmt::Debug for Shared {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Shared({:?})", self.watched.lock().unwrap())
    }
}

/// Makes the next watcher fail to be created.
pub static FAIL_NEXT: AtomicBool = AtomicBool::new(false);

fn last() -> &'static Mutex<Option<Arc<Shared>>> {
    static L: OnceLock<Mutex<Option<Arc<Shared>>>> = OnceLock::new();
    L.get_or_init(Default::default)
}
/// The watcher that was created last.
pub fn take_last() -> Option<Arc<Shared>> {
    last().lock().unwrap().take()
}

#[derive(Debug)]
pub struct RecommendedWatcher(Arc<Shared>);
impl Watcher for RecommendedWatcher {
    fn new<F: EventHandler>(handler: F, _config: Config) -> Result<Self> {
        let s = Arc::new(Shared { watched: Mutex::default(), handler: Mutex::new(Box::new(handler)), failing: AtomicUsize::new(0), attempts: AtomicUsize::new(0) });
        if FAIL_NEXT.swap(false, SeqCst) {
            return Err(Error("no more watchers".into()));
        }
        *last().lock().unwrap() = Some(s.clone());
        Ok(Self(s))
    }
    fn watch(&mut self, path: &Path, _mode: RecursiveMode) -> Result<()> {
        // As with inotify, a path that does not exist cannot be watched.
        // The harness changes files while it holds the lock.
        let mut watched = self.0.watched.lock().unwrap();
        let n = self.0.failing.load(SeqCst);
        if n > 0 && self.0.attempts.fetch_add(1, SeqCst) % n == 0 {
            return Err(Error("no more watches".into()));
        }
        std::fs::symlink_metadata(path).map_err(|e| Error(e.to_string()))?;
        watched.insert(path.to_owned());
        Ok(())
    }
    fn unwatch(&mut self, path: &Path) -> Result<()> {
        match self.0.watched.lock().unwrap().remove(path) {
            true => Ok(()),
            false => Err(Error("no watch was found".into())),
        }
    }
}
