//! The server of the process, and archives.

use std::collections::{BTreeMap, HashMap};
use std::io::Read;
use std::path::Path;
use std::sync::{Arc, LazyLock, Mutex};

use reqwest::Answer;
use vm_core::Rng;

pub type Tree = BTreeMap<String, Vec<u8>>;

type Route = Arc<dyn Fn() -> Answer + Send + Sync>;
static ROUTES: LazyLock<Mutex<HashMap<String, Route>>> = LazyLock::new(Default::default);

/// Starts to serve the routes.
pub fn start() {
    reqwest::serve(Arc::new(|url: &str| {
        let r = ROUTES.lock().unwrap().get(url).cloned();
        match r {
            Some(r) => r(),
            None => body(404, vec![]),
        }
    }));
}

pub fn route(url: &str, r: impl Fn() -> Answer + Send + Sync + 'static) {
    ROUTES.lock().unwrap().insert(url.into(), Arc::new(r));
}

pub fn unroute(url: &str) {
    ROUTES.lock().unwrap().remove(url);
}

pub fn body(status: u16, b: Vec<u8>) -> Answer {
    Answer::Body(status, Box::new(std::io::Cursor::new(b)))
}

/// A body in pieces, that takes its time and may break off.
pub struct Slow {
    pub data: Vec<u8>,
    pub at: usize,
    pub step: usize,
    pub micros: u64,
    pub fail_at: Option<usize>,
}

impl Read for Slow {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.micros > 0 {
            std::thread::sleep(std::time::Duration::from_micros(self.micros));
        }
        if self.fail_at.is_some_and(|f| self.at >= f) {
            return Err(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "connection reset"));
        }
        let end = self.fail_at.unwrap_or(usize::MAX).min(self.data.len());
        let n = buf.len().min(self.step).min(end - self.at);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

const NAMES: [&str; 12] =
    ["lib.typ", "typst.toml", "src", "a b", "é文", "README.md", "x", "assets", "deeply", "LICENSE", "file-with-a-rather-long-name-that-goes-on-for-a-while.typ", "..a"];

/// The files of a package. `hidden`: whether some names start with a dot.
pub fn tree(r: &mut Rng, hidden: bool) -> Tree {
    let mut t = Tree::new();
    let n = r.range(1, 12);
    let mut dirs = std::collections::BTreeSet::new();
    while t.len() < n {
        let mut parts: Vec<String> = vec![];
        let depth = if r.chance(1, 8) { r.range(4, 9) } else { r.range(1, 3) };
        for _ in 0..depth {
            let mut s = r.pick(&NAMES).to_string();
            if s == "..a" && !hidden {
                s = "a..".into();
            }
            if r.chance(1, 3) {
                s += &r.below(4).to_string();
            }
            if hidden && r.chance(1, 8) {
                s = format!(".{s}");
            }
            parts.push(s);
        }
        let p = parts.join("/");
        // No file may be a directory as well.
        if dirs.contains(&p) || (1..parts.len()).any(|k| t.contains_key(&parts[..k].join("/"))) {
            continue;
        }
        for k in 1..parts.len() {
            dirs.insert(parts[..k].join("/"));
        }
        let len = match r.below(6) {
            0 => 0,
            1 => r.range(1, 20_000),
            2 => 512 * r.range(1, 3),
            _ => r.range(1, 300),
        };
        let seed = r.u64();
        t.insert(p, (0..len).map(|i| vm_core::h64(&(seed, i / 7)) as u8).collect());
    }
    t
}

/// A tarball of the files, with entries for directories and other things that are not files. `dots`: with `./` first.
pub fn tarball(r: &mut Rng, t: &Tree, dots: bool) -> Vec<u8> {
    let mut b = tar::Builder::new(vec![]);
    let mut paths: Vec<&String> = t.keys().collect();
    r.shuffle(&mut paths);
    for p in paths {
        if let (true, Some(d)) = (r.chance(1, 3), Path::new(p).parent().filter(|d| !d.as_os_str().is_empty())) {
            let mut h = tar::Header::new_gnu();
            h.set_entry_type(tar::EntryType::Directory);
            h.set_mode(0o755);
            h.set_size(0);
            b.append_data(&mut h, d, std::io::empty()).expect("tar");
        }
        let mut h = if r.chance(1, 2) { tar::Header::new_gnu() } else { tar::Header::new_ustar() };
        h.set_mode(0o644);
        h.set_size(t[p].len() as u64);
        let name = if dots && r.chance(1, 2) { format!("./{p}") } else { p.clone() };
        b.append_data(&mut h, name, &t[p][..]).expect("tar");
    }
    b.into_inner().expect("tar")
}

pub fn gzip(b: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
    e.write_all(b).expect("gz");
    e.finish().expect("gz")
}

/// What the directory contains; its files, below.
pub fn disk(dir: &Path) -> std::io::Result<Tree> {
    let mut t = Tree::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d)? {
            let p = e?.path();
            if p.is_dir() {
                todo.push(p);
            } else {
                let rel = p.strip_prefix(dir).unwrap().to_string_lossy().into_owned();
                t.insert(rel, std::fs::read(&p)?);
            }
        }
    }
    Ok(t)
}

pub fn write(dir: &Path, t: &Tree) {
    for (p, c) in t {
        let p = dir.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
        std::fs::write(p, c).expect("write");
    }
}

/// What differs.
pub fn diff(got: &Tree, want: &Tree) -> Vec<String> {
    let mut v = vec![];
    for (p, c) in want {
        match got.get(p) {
            None => v.push(format!("no {p}")),
            Some(g) if g != c => v.push(format!("{p}: {} of {} bytes, or others", g.len(), c.len())),
            _ => {}
        }
    }
    v.extend(got.keys().filter(|p| !want.contains_key(*p)).map(|p| format!("too much: {p}")));
    v
}
