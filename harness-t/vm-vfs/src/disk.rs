//! The file systems under the virtual one.

use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use tinymist_std::ImmutPath;
use tinymist_vfs::system::SystemAccessModel;
use tinymist_vfs::{Bytes, FileId, PathAccessModel, RootResolver, WorkspaceResolver};
use typst::diag::{FileError, FileResult, PackageError};
use typst::syntax::package::PackageSpec;
use typst::syntax::VirtualPath;
use vm_core::Rng;

/// Contents in memory, or a real directory.
#[derive(Clone)]
pub struct Disk(pub Arc<Inner>);

pub struct Inner {
    pub files: Mutex<HashMap<PathBuf, FileResult<Vec<u8>>>>,
    pub real: Option<PathBuf>,
    pub reads: AtomicU64,
    pub resets: AtomicU64,
    /// Whether reading takes its time.
    pub slow: bool,
}

impl Disk {
    pub fn new(real: Option<PathBuf>, slow: bool) -> Disk {
        Disk(Arc::new(Inner { files: Mutex::default(), real, reads: AtomicU64::new(0), resets: AtomicU64::new(0), slow }))
    }

    pub fn set(&self, path: &Path, c: FileResult<Vec<u8>>) {
        if self.0.real.is_some() {
            match &c {
                Ok(b) => {
                    let _ = std::fs::remove_dir(path);
                    std::fs::create_dir_all(path.parent().expect("parent")).expect("mkdir");
                    std::fs::write(path, b).expect("write");
                }
                Err(FileError::IsDirectory) => {
                    let _ = std::fs::remove_file(path);
                    std::fs::create_dir_all(path).expect("mkdir");
                }
                Err(_) => {
                    let _ = std::fs::remove_file(path);
                    let _ = std::fs::remove_dir(path);
                }
            }
        }
        self.0.files.lock().unwrap().insert(path.into(), c);
    }

    pub fn get(&self, path: &Path) -> FileResult<Vec<u8>> {
        self.0.files.lock().unwrap().get(path).cloned().unwrap_or_else(|| Err(FileError::NotFound(path.into())))
    }

    pub fn reads(&self) -> u64 {
        self.0.reads.load(Ordering::Relaxed)
    }
}

impl PathAccessModel for Disk {
    fn reset(&mut self) {
        self.0.resets.fetch_add(1, Ordering::Relaxed);
    }

    fn content(&self, src: &Path) -> FileResult<Bytes> {
        self.0.reads.fetch_add(1, Ordering::Relaxed);
        if self.0.real.is_some() {
            return SystemAccessModel.content(src);
        }
        let c = self.get(src);
        if self.0.slow {
            std::thread::sleep(std::time::Duration::from_micros(200));
        }
        c.map(Bytes::new)
    }
}

/// Where packages are.
#[derive(Default)]
pub struct Packages(pub BTreeMap<String, ImmutPath>);

impl RootResolver for Packages {
    fn resolve_package_root(&self, pkg: &PackageSpec) -> FileResult<ImmutPath> {
        self.0.get(&pkg.to_string()).cloned().ok_or_else(|| FileError::Package(PackageError::NotFound(pkg.clone())))
    }
}

/// The files of a case, with the paths that they must resolve to.
pub struct Files {
    pub ids: Vec<(FileId, FileResult<PathBuf>)>,
    pub paths: Vec<PathBuf>,
    pub packages: Arc<Packages>,
}

pub fn files(r: &mut Rng, base: &Path) -> Files {
    let roots: Vec<PathBuf> = ["ws", "ws/sub", "other", "wsx"].iter().map(|s| base.join(s)).collect();
    let names = ["a.typ", "b.typ", "sub/a.typ", "sub/c.typ", "d e.typ", "sub/sub/a.typ", "é.typ"];
    let mut ids: Vec<(FileId, FileResult<PathBuf>)> = vec![];
    let mut pk = Packages::default();
    for root in &roots {
        let iroot: ImmutPath = root.as_path().into();
        for n in names {
            if r.chance(2, 3) {
                ids.push((WorkspaceResolver::workspace_file(Some(&iroot), VirtualPath::new(n)), Ok(root.join(n))));
            }
        }
    }
    let spec: PackageSpec = "@preview/pkg:0.1.0".parse().unwrap();
    let proot = base.join("packages/preview/pkg/0.1.0");
    pk.0.insert(spec.to_string(), proot.as_path().into());
    for n in ["lib.typ", "typst.toml"] {
        ids.push((FileId::new(Some(spec.clone()), VirtualPath::new(n)), Ok(proot.join(n))));
    }
    let none: PackageSpec = "@preview/none:0.1.0".parse().unwrap();
    ids.push((FileId::new(Some(none.clone()), VirtualPath::new("lib.typ")), Err(FileError::Package(PackageError::NotFound(none)))));
    let iroot: ImmutPath = roots[0].as_path().into();
    ids.push((WorkspaceResolver::workspace_file(None, VirtualPath::new("x.typ")), Err(FileError::AccessDenied)));
    ids.push((WorkspaceResolver::rootless_file(VirtualPath::new("y.typ")), Err(FileError::AccessDenied)));
    ids.push((WorkspaceResolver::rooted_untitled(Some(&iroot), VirtualPath::new("a.typ")), Err(FileError::AccessDenied)));
    ids.push((WorkspaceResolver::workspace_file(Some(&iroot), VirtualPath::new("../other/a.typ")), Err(FileError::AccessDenied)));
    let mut paths: Vec<PathBuf> = ids.iter().filter_map(|(_, p)| p.clone().ok()).collect();
    paths.sort();
    paths.dedup();
    Files { ids, paths, packages: Arc::new(pk) }
}

pub fn content(r: &mut Rng, n: &mut u64) -> Vec<u8> {
    *n += 1;
    let mut v = match r.below(12) {
        0 => vec![],
        1 => b"\xef\xbb\xbfwith bom ".to_vec(),
        2 => b"\xef\xbb\xbf\xef\xbb\xbftwo".to_vec(),
        3 => vec![0xff, 0xfe, b'a'],
        4 => b"\xef\xbb".to_vec(),
        5 => "π 文字 😀".as_bytes().to_vec(),
        6 => b"a\r\nb\0c".to_vec(),
        7 => "long ".repeat(r.range(1, 300)).into_bytes(),
        _ => vec![],
    };
    if r.chance(5, 6) {
        v.extend(format!("#{n}").bytes());
    }
    if r.chance(1, 6) {
        v.extend(" tail".repeat(r.range(1, 4)).bytes());
    }
    v
}

/// What the text of a source must be.
pub fn decoded(b: &FileResult<Vec<u8>>) -> FileResult<String> {
    let b = b.clone()?;
    let b = b.strip_prefix(b"\xef\xbb\xbf").unwrap_or(&b);
    String::from_utf8(b.to_vec()).map_err(|_| FileError::InvalidUtf8)
}
