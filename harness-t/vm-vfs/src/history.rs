//! Random histories of changes and reads over a family of virtual file systems, against a model of layers.

use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;

use serde_json::{json, Value};
use tinymist_std::ImmutPath;
use tinymist_vfs::{Bytes, FileChangeSet, FileId, FileSnapshot, FilesystemEvent, RevisingVfs, Vfs};
use typst::diag::{FileError, FileResult};
use vm_core::{h64, parallel, Ctx, Rng, Scratch};

use crate::disk::{content, decoded, files, Disk, Files};

type C = FileResult<Vec<u8>>;

/// The layers over the disk, nearest first.
#[derive(Clone, Default)]
pub struct Layers {
    pub by_id: BTreeMap<FileId, C>,
    pub by_path: BTreeMap<PathBuf, C>,
    pub notified: BTreeMap<PathBuf, C>,
}

impl Layers {
    /// The content from the layers; none for what is on disk.
    pub fn top(&self, id: FileId, path: &FileResult<PathBuf>) -> Result<C, PathBuf> {
        if let Some(c) = self.by_id.get(&id) {
            return Ok(c.clone());
        }
        match path {
            Err(e) => Ok(Err(e.clone())),
            Ok(p) => match self.by_path.get(p).or_else(|| self.notified.get(p)) {
                Some(c) => Ok(c.clone()),
                None => Err(p.clone()),
            },
        }
    }
}

pub fn snap(c: &C) -> FileSnapshot {
    FileSnapshot::from(c.clone().map(Bytes::new))
}

/// One file system with its model.
struct Node {
    vfs: Vfs<Disk>,
    layers: Layers,
    /// What has been read from the disk, and what may be read again while nothing changes.
    pinned: BTreeMap<FileId, C>,
    marks: Vec<Mark>,
    name: String,
    rev: usize,
    /// The node that this is an unchanged snapshot of.
    of: Option<String>,
}

/// Files that were read at a revision, with what they contained, and whether they have been touched since.
#[derive(Clone)]
struct Mark {
    rev: usize,
    read: Vec<(usize, C)>,
    touched: bool,
    known: bool,
}

struct Case<'a> {
    r: Rng,
    fs: Files,
    disk: Disk,
    nodes: Vec<Node>,
    n: u64,
    log: Vec<String>,
    ctx: &'a Ctx,
    what: &'a str,
    silent: bool,
}

fn show(c: &C) -> String {
    match c {
        Ok(b) => format!("{:?}", String::from_utf8_lossy(&b[..b.len().min(40)])),
        Err(e) => format!("{e:?}"),
    }
}

impl Case<'_> {
    fn bad(&self, sig: &str, more: Value) {
        let tail: Vec<&String> = self.log.iter().rev().take(150).collect();
        self.ctx.violate(sig, json!({"detail": more, "history, latest first": tail, "steps": self.log.len()}));
    }

    fn content(&mut self) -> C {
        match self.r.below(10) {
            0 => Err(FileError::NotFound("gone".into())),
            1 => Err(FileError::AccessDenied),
            _ => Ok(content(&mut self.r, &mut self.n)),
        }
    }

    /// A path of the case, at times spelled otherwise.
    fn path(&mut self) -> (PathBuf, PathBuf) {
        let p = self.r.pick(&self.fs.paths).clone();
        let q = if self.r.chance(1, 6) {
            let (d, f) = (p.parent().unwrap(), p.file_name().unwrap());
            PathBuf::from(format!("{}/.//{}", d.display(), f.to_string_lossy()))
        } else {
            p.clone()
        };
        (p, q)
    }

    /// Reads a file of a node in one of the ways and compares.
    fn read(&mut self, k: usize, i: usize) -> Option<C> {
        let (id, path) = self.fs.ids[i].clone();
        let as_source = self.r.chance(1, 2);
        let node = &self.nodes[k];
        let (got, text) = if as_source {
            match node.vfs.source(id) {
                Ok(s) => {
                    if s.id() != id {
                        self.bad("source-of-another-file", json!({"node": node.name, "file": format!("{id:?}")}));
                        return None;
                    }
                    (None, Some(Ok(s.text().to_owned())))
                }
                Err(e) => (None, Some(Err(e))),
            }
        } else {
            (Some(node.vfs.read(id).map(|b| b.to_vec())), None)
        };
        // What may be read: from a layer, as read before, or as on disk now.
        let top = node.layers.top(id, &path);
        let may: Vec<C> = match &top {
            Ok(c) => vec![c.clone()],
            Err(p) => match node.pinned.get(&id) {
                Some(c) => vec![c.clone()],
                None => vec![self.disk.get(p)],
            },
        };
        self.log.push(format!("{}.{}({i}) = {}", node.name, if as_source { "source" } else { "read" }, match (&got, &text) {
            (Some(g), _) => show(g),
            (_, Some(t)) => show(&t.clone().map(String::into_bytes)),
            _ => String::new(),
        }));
        let ok = may.iter().any(|c| match (&got, &text) {
            (Some(g), _) => g == c,
            (_, Some(t)) => *t == decoded(c),
            _ => false,
        });
        if !ok {
            self.bad(
                if as_source { "stale-or-wrong-source" } else { "stale-or-wrong-content" },
                json!({"in": node.name, "file": i, "id": format!("{id:?}"), "path": format!("{path:?}"),
                    "expected": may.iter().map(show).collect::<Vec<_>>(),
                    "got": got.map(|g| show(&g)).or(text.map(|t| show(&t.map(String::into_bytes))))}),
            );
            return None;
        }
        let c = may[0].clone();
        if top.is_err() {
            self.nodes[k].pinned.insert(id, c.clone());
        }
        self.ctx.count("reads", 1);
        Some(c)
    }

    /// A file has been touched in a node.
    fn touch(&mut self, k: usize, hit: &dyn Fn(FileId, Option<&Path>) -> bool) {
        let ids = &self.fs.ids;
        let node = &mut self.nodes[k];
        for (id, p) in ids {
            if hit(*id, p.as_ref().ok().map(|p| p.as_path())) {
                node.pinned.remove(id);
            }
        }
        for m in &mut node.marks {
            if m.read.iter().any(|(i, _)| hit(ids[*i].0, ids[*i].1.as_ref().ok().map(|p| p.as_path()))) {
                m.touched = true;
            }
        }
    }

    /// A round of changes to one node.
    fn revise(&mut self, k: usize) {
        self.nodes[k].of = None;
        let times = if self.r.chance(1, 4) { self.r.range(0, 5) } else { 1 };
        let known = self.known(k);
        let before: Vec<C> = known.iter().map(|i| self.model(k, *i)).collect();
        let other = self.nodes[k].vfs.fork();
        let mut vfs = std::mem::replace(&mut self.nodes[k].vfs, other);
        {
            let mut rv = vfs.revise();
            for _ in 0..times {
                self.change(k, &mut rv);
            }
        }
        self.nodes[k].vfs = vfs;
        let after: Vec<C> = known.iter().map(|i| self.model(k, *i)).collect();
        let rev = self.nodes[k].vfs.revision().get();
        let node = &self.nodes[k];
        if rev < node.rev {
            self.bad("revision-went-back", json!({"in": node.name, "from": node.rev, "to": rev}));
        }
        // A change of what has been read is a new revision.
        if before != after && rev == node.rev {
            self.bad("change-without-revision", json!({"in": node.name, "revision": rev, "before": before.iter().map(show).collect::<Vec<_>>(), "after": after.iter().map(show).collect::<Vec<_>>()}));
        }
        self.nodes[k].rev = rev;
        self.ctx.count("revisions", 1);
    }

    /// The files that have been read in the node since they have been touched.
    fn known(&self, k: usize) -> Vec<usize> {
        let node = &self.nodes[k];
        let mut ids: Vec<usize> = node.marks.iter().filter(|m| m.known && !m.touched).flat_map(|m| m.read.iter().map(|(i, _)| *i)).collect();
        ids.sort_unstable();
        ids.dedup();
        ids
    }

    fn model(&self, k: usize, i: usize) -> C {
        let (id, path) = &self.fs.ids[i];
        match self.nodes[k].layers.top(*id, path) {
            Ok(c) => c,
            Err(p) => self.nodes[k].pinned.get(id).cloned().unwrap_or_else(|| self.disk.get(&p)),
        }
    }

    fn change(&mut self, k: usize, rv: &mut RevisingVfs<Disk>) {
        let name = self.nodes[k].name.clone();
        match self.r.below(14) {
            0..=3 => {
                let ((p, q), c) = (self.path(), self.content());
                self.log.push(format!("{name}.map_shadow({}, {})", q.display(), show(&c)));
                let _ = rv.map_shadow(&q, snap(&c));
                self.nodes[k].layers.by_path.insert(p.clone(), c);
                self.touch(k, &|_, x| x == Some(p.as_path()));
            }
            4 | 5 => {
                let (p, q) = self.path();
                self.log.push(format!("{name}.unmap_shadow({})", q.display()));
                let _ = rv.unmap_shadow(&q);
                self.nodes[k].layers.by_path.remove(&p);
                self.touch(k, &|_, x| x == Some(p.as_path()));
            }
            6 | 7 => {
                let (i, c) = (self.r.below(self.fs.ids.len()), self.content());
                let id = self.fs.ids[i].0;
                self.log.push(format!("{name}.map_shadow_by_id({i}, {})", show(&c)));
                let _ = rv.map_shadow_by_id(id, snap(&c));
                self.nodes[k].layers.by_id.insert(id, c);
                self.touch(k, &|x, _| x == id);
            }
            8 => {
                let i = self.r.below(self.fs.ids.len());
                let id = self.fs.ids[i].0;
                self.log.push(format!("{name}.remove_shadow_by_id({i})"));
                rv.remove_shadow_by_id(id);
                self.nodes[k].layers.by_id.remove(&id);
                self.touch(k, &|x, _| x == id);
            }
            9 if self.r.chance(1, 3) => {
                self.log.push(format!("{name}.reset_shadow()"));
                rv.reset_shadow();
                let l = std::mem::take(&mut self.nodes[k].layers);
                self.nodes[k].layers.notified = l.notified;
                self.touch(k, &|x, p| l.by_id.contains_key(&x) || p.is_some_and(|p| l.by_path.contains_key(p)));
            }
            10 if self.r.chance(1, 4) => {
                self.log.push(format!("{name}.reset_cache()"));
                rv.reset_cache();
                self.nodes[k].pinned.clear();
                self.nodes[k].marks.clear();
            }
            _ => {
                let mut set = FileChangeSet::default();
                let mut touched = vec![];
                for _ in 0..self.r.below(3) {
                    let (p, q) = self.path();
                    // The file may have changed on disk as well.
                    if self.r.chance(1, 2) && self.only(&p) {
                        let c = self.disk_content();
                        self.set_disk(&p, c);
                    }
                    set.removes.push(ImmutPath::from(q));
                    touched.push((p, None));
                }
                for _ in 0..self.r.below(4) {
                    let ((p, q), c) = (self.path(), self.content());
                    set.inserts.push((ImmutPath::from(q), snap(&c)));
                    touched.push((p, Some(c)));
                }
                self.log.push(format!(
                    "{name}.notify({:?})",
                    touched.iter().map(|(p, c)| (p.display().to_string(), c.as_ref().map(show))).collect::<Vec<_>>()
                ));
                if self.r.chance(1, 2) {
                    rv.notify_fs_changes(set);
                } else if self.r.chance(1, 2) {
                    rv.notify_fs_event(FilesystemEvent::Update(set));
                } else {
                    rv.notify_fs_event(FilesystemEvent::UpstreamUpdate { changeset: set, upstream_event: None });
                }
                for (p, c) in &touched {
                    match c {
                        Some(c) => self.nodes[k].layers.notified.insert(p.clone(), c.clone()),
                        None => self.nodes[k].layers.notified.remove(p),
                    };
                }
                for (p, _) in touched {
                    self.touch(k, &|_, x| x == Some(p.as_path()));
                }
            }
        }
    }

    /// Whether no other node can tell that the file changes on disk.
    fn only(&self, _p: &Path) -> bool {
        self.silent
    }

    fn disk_content(&mut self) -> C {
        match self.r.below(6) {
            0 => Err(FileError::NotFound(PathBuf::new())),
            1 => Err(FileError::IsDirectory),
            _ => Ok(content(&mut self.r, &mut self.n)),
        }
    }

    fn set_disk(&mut self, p: &Path, c: C) {
        let c = match c {
            Err(FileError::NotFound(_)) => Err(FileError::NotFound(p.into())),
            c => c,
        };
        self.log.push(format!("disk: {} = {}", p.display(), show(&c)));
        self.disk.set(p, c);
    }

    fn mark(&mut self, k: usize, via: Option<usize>) {
        // A compilation on a snapshot (or the node itself): some files are read.
        let on = via.unwrap_or(k);
        let rev = self.nodes[on].vfs.revision().get();
        let mut read = vec![];
        for _ in 0..self.r.range(1, 6) {
            let i = self.r.below(self.fs.ids.len());
            let Some(c) = self.read(on, i) else { return };
            read.push((i, c));
        }
        self.nodes[k].marks.push(Mark { rev, read, touched: false, known: true });
        if self.nodes[k].marks.len() > 6 {
            self.nodes[k].marks.remove(0);
        }
    }

    fn judge_marks(&mut self, k: usize) {
        for m in self.nodes[k].marks.clone() {
            let ids: Vec<FileId> = m.read.iter().map(|(i, _)| self.fs.ids[*i].0).collect();
            let clean = self.nodes[k].vfs.is_clean_compile(m.rev, &ids);
            let same = m.read.iter().all(|(i, c)| self.model(k, *i) == *c);
            self.ctx.count(if clean { "clean" } else { "dirty" }, 1);
            let info = json!({"in": self.nodes[k].name, "rev": m.rev, "now": self.nodes[k].vfs.revision().get(),
                "files": m.read.iter().map(|(i, c)| (i.to_string(), show(c))).collect::<Vec<_>>()});
            if clean && !same {
                self.bad("clean-although-changed", info);
                return;
            }
            if !clean && !m.touched && m.known {
                self.bad("dirty-although-untouched", info);
                return;
            }
        }
    }
}

/// `marks`: whether to look at clean compilations; `family`: whether there are snapshots and forks.
fn history(ctx: &Ctx, r: Rng, what: &str, family: bool, marks: bool, real: bool) {
    let mut r = r;
    let scratch = real.then(|| Scratch::new("vfs"));
    let base = scratch.as_ref().map_or_else(|| PathBuf::from("/virtual"), |s| s.path().to_path_buf());
    let disk = Disk::new(scratch.as_ref().map(|s| s.path().to_path_buf()), false);
    let fs = files(&mut r, &base);
    let vfs = Vfs::new(fs.packages.clone(), disk.clone());
    let rev = vfs.revision().get();
    let node = Node { vfs, layers: Layers::default(), pinned: BTreeMap::new(), marks: vec![], name: "v0".into(), rev, of: None };
    // The disk changes without notice only while there is one view of it.
    let mut c = Case { r, fs, disk, nodes: vec![node], n: 0, log: vec![], ctx, what, silent: !family };
    for p in c.fs.paths.clone() {
        if c.r.chance(3, 4) {
            let x = c.disk_content();
            c.set_disk(&p, x);
        }
    }
    let steps = c.r.range(5, 120);
    let mut names = 1;
    for _ in 0..steps {
        if ctx.violations() >= 3 {
            return;
        }
        let k = c.r.below(c.nodes.len());
        match c.r.below(if family { 14 } else { 11 }) {
            0..=4 => {
                let i = c.r.below(c.fs.ids.len());
                c.read(k, i);
            }
            5..=7 => c.revise(k),
            8 if marks => match c.nodes[k].of.clone().and_then(|of| c.nodes.iter().position(|n| n.name == of)) {
                // A compilation that takes a while, during which files are changed.
                Some(parent) if c.r.chance(3, 4) => {
                    c.mark(parent, Some(k));
                    if let Some(m) = c.nodes[parent].marks.last_mut() {
                        m.touched = true;
                    }
                    ctx.count("late marks", 1);
                    c.judge_marks(parent);
                }
                _ => c.mark(k, None),
            },
            8 | 9 => {
                if marks {
                    c.judge_marks(k);
                }
            }
            10 => match c.r.below(4) {
                0 => {
                    // Long unused files are forgotten, which nobody may notice.
                    let t = c.r.below(4);
                    c.log.push(format!("{}.evict({t})", c.nodes[k].name));
                    c.nodes[k].vfs.evict(t);
                    for n in &mut c.nodes {
                        n.of = None;
                        // What had changed before is forgotten with the files.
                        n.marks.retain(|m| m.rev == n.rev);
                        n.marks.iter_mut().for_each(|m| m.known = false);
                        if !family {
                            n.pinned.clear();
                        }
                    }
                }
                1 => {
                    let t = c.r.below(4);
                    let v = &c.nodes[k].vfs;
                    v.clone_source_cache().evict(v.revision(), t);
                }
                2 => {
                    let before = c.disk.0.resets.load(std::sync::atomic::Ordering::Relaxed);
                    c.nodes[k].vfs.reset_access_model();
                    if c.disk.0.resets.load(std::sync::atomic::Ordering::Relaxed) == before {
                        c.bad("reset-does-not-reach-the-model", json!({"in": c.nodes[k].name}));
                    }
                }
                _ => {
                    if c.r.chance(1, 3) {
                        c.log.push(format!("{}.reset_all()", c.nodes[k].name));
                        c.nodes[k].vfs.reset_all();
                        for n in &mut c.nodes {
                            n.of = None;
                        }
                        let rev = c.nodes[k].vfs.revision().get();
                        let n = &mut c.nodes[k];
                        n.pinned.clear();
                        n.marks.clear();
                        n.rev = rev;
                    }
                }
            },
            11 | 12 => {
                // Another view.
                if c.nodes.len() >= 5 {
                    let d = c.r.below(c.nodes.len());
                    c.nodes.remove(d);
                    continue;
                }
                let n = &c.nodes[k];
                let fork = c.r.chance(1, 3);
                let name = format!("v{names}");
                names += 1;
                let (vfs, rev) = if fork {
                    let v = n.vfs.fork();
                    let rev = v.revision().get();
                    (v, rev)
                } else {
                    (n.vfs.snapshot(), n.rev)
                };
                if vfs.revision().get() != rev {
                    c.bad("snapshot-of-another-revision", json!({"of": n.name}));
                }
                let new = Node {
                    vfs,
                    layers: n.layers.clone(),
                    pinned: BTreeMap::new(),
                    marks: vec![],
                    name: name.clone(),
                    rev,
                    of: (!fork).then(|| n.name.clone()),
                };
                c.log.push(format!("{name} = {}.{}", n.name, if fork { "fork()" } else { "snapshot()" }));
                c.nodes.push(new);
                if marks && !fork && c.r.chance(1, 2) {
                    let last = c.nodes.len() - 1;
                    c.mark(k, Some(last));
                }
                ctx.count("views", 1);
            }
            _ => {
                // Everything, in every view.
                let k = c.r.below(c.nodes.len());
                for i in 0..c.fs.ids.len() {
                    if c.read(k, i).is_none() {
                        return;
                    }
                }
            }
        }
    }
    for k in 0..c.nodes.len() {
        for i in 0..c.fs.ids.len() {
            if c.read(k, i).is_none() {
                return;
            }
        }
        let want: Vec<PathBuf> = c.nodes[k].layers.by_path.keys().cloned().collect();
        let mut got: Vec<PathBuf> = c.nodes[k].vfs.shadow_paths().iter().map(|p| p.components().collect()).collect();
        got.sort();
        if got != want {
            c.bad("shadow-paths", json!({"in": c.nodes[k].name, "got": got, "want": want}));
        }
        let want: Vec<FileId> = c.nodes[k].layers.by_id.keys().copied().collect();
        let mut got = c.nodes[k].vfs.shadow_ids();
        got.sort();
        if got != want {
            c.bad("shadow-ids", json!({"in": c.nodes[k].name}));
        }
    }
    ctx.count("steps", steps as u64);
    ctx.eval(h64(&c.log), c.nodes.len() > 1 || !family);
    ctx.sample(|| json!({"what": c.what, "history": c.log.iter().take(25).collect::<Vec<_>>()}));
}

const ASSUME: &str = "typst's data types (Source, FileId, VirtualPath, Bytes) and rpds are stand-ins that behave as documented";

pub fn c50(ctx: &Ctx) -> i32 {
    parallel(ctx, ctx.n(4000, 400_000), 8, |i| {
        history(ctx, ctx.rng(i as u64), "one view", false, false, i % 10 == 0);
    });
    ctx.require("reads", 1000);
    ctx.finish(
        "exploration",
        "histories of up to 120 shadowings by path and by id, notified changes, removals, resets, evictions and reads of bytes and sources over 40 files of four roots, packages and untitled files, over memory and over a real directory; non-trivial: all; oracle: reference model of the layers, independent decoder",
        &[ASSUME],
    )
}

pub fn c51(ctx: &Ctx) -> i32 {
    parallel(ctx, ctx.n(4000, 400_000), 8, |i| {
        history(ctx, ctx.rng(i as u64), "family", true, false, false);
    });
    ctx.require("views", 100);
    ctx.finish(
        "exploration",
        "the same histories over up to five views (snapshots and forks of one another), each changed and read in turn; non-trivial: several views; oracle: a reference model for each view",
        &[ASSUME],
    )
}

pub fn c53(ctx: &Ctx) -> i32 {
    parallel(ctx, ctx.n(4000, 400_000), 8, |i| {
        history(ctx, ctx.rng(i as u64), "marks", i % 2 == 0, true, false);
    });
    ctx.require("clean", 100);
    ctx.require("dirty", 100);
    ctx.require("late marks", 100);
    ctx.finish(
        "exploration",
        "histories in which sets of files are read at some revision, by the view itself or a snapshot, at once or after changes to the view, and judged clean or not later; oracle: clean implies equal contents, untouched files are clean, contents that change are a new revision",
        &[ASSUME, "files that have been forgotten (evict) may be judged changed, and compilations before it are not judged afterwards"],
    )
}
