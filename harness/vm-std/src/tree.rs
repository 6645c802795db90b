//! Snapshots of directory trees (without following links).

use std::collections::BTreeMap;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Node {
    Dir { mode: u32 },
    File { mode: u32, len: u64, hash: u64, ino: u64 },
    Link { to: PathBuf },
    Other,
}

pub fn snap(root: &Path) -> BTreeMap<PathBuf, Node> {
    let mut out = BTreeMap::new();
    walk(root, root, &mut out);
    out
}

fn walk(root: &Path, p: &Path, out: &mut BTreeMap<PathBuf, Node>) {
    let Ok(m) = std::fs::symlink_metadata(p) else { return };
    let rel = p.strip_prefix(root).unwrap_or(p).to_path_buf();
    let mode = m.permissions().mode() & 0o7777;
    let ft = m.file_type();
    if ft.is_symlink() {
        out.insert(rel, Node::Link { to: std::fs::read_link(p).unwrap_or_default() });
    } else if ft.is_dir() {
        out.insert(rel, Node::Dir { mode });
        if let Ok(rd) = std::fs::read_dir(p) {
            for e in rd.flatten() {
                walk(root, &e.path(), out);
            }
        }
    } else if ft.is_file() {
        let b = std::fs::read(p).unwrap_or_default();
        out.insert(rel, Node::File { mode, len: m.len(), hash: vm_core::h64(&b[..]), ino: m.ino() });
    } else {
        out.insert(rel, Node::Other);
    }
}

/// Names in a directory, sorted.
pub fn names(dir: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir)
        .map(|rd| rd.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect())
        .unwrap_or_default();
    v.sort();
    v
}

pub fn chmod(p: &Path, mode: u32) {
    let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode));
}

pub fn mode(p: &Path) -> Option<u32> {
    std::fs::metadata(p).ok().map(|m| m.permissions().mode() & 0o7777)
}

/// Differences of two snapshots, for reports.
pub fn delta(a: &BTreeMap<PathBuf, Node>, b: &BTreeMap<PathBuf, Node>) -> Vec<String> {
    let mut v = vec![];
    for (k, x) in a {
        match b.get(k) {
            None => v.push(format!("gone {k:?} {x:?}")),
            Some(y) if x != y => v.push(format!("changed {k:?} {x:?} -> {y:?}")),
            _ => {}
        }
    }
    for (k, y) in b {
        if !a.contains_key(k) {
            v.push(format!("new {k:?} {y:?}"));
        }
    }
    v.truncate(8);
    v
}
