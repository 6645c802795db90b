//! Packs and what is cloned from them.

use std::collections::HashMap;
use std::path::Path;

use serde_json::{json, Value};
use tinymist_package::pack::{CloneIntoPack, DirPack, HttpPack, MapPack, PackExt, PackFile, PackFs, TarballPack, UniversePack};
use tinymist_std::ImmutBytes;
use typst::diag::{PackageError, PackageResult};
use vm_core::{guard, h64, parallel, Ctx, Rng, Scratch};

use crate::storage::{spec, url};
use crate::web::{self, Tree};

fn slurp(f: PackFile) -> PackageResult<Vec<u8>> {
    let mut v = vec![];
    let mut f = f;
    std::io::Read::read_to_end(&mut f, &mut v).map_err(|e| PackageError::Other(Some(e.to_string().into())))?;
    Ok(v)
}

/// Everything that the pack delivers, in order.
fn all(p: &mut impl PackFs) -> (Vec<(String, Vec<u8>)>, PackageResult<()>) {
    let mut v = vec![];
    let e = p.read_all(&mut |path, f| {
        let b = slurp(f)?;
        v.push((path.to_string(), b));
        Ok(())
    });
    (v, e)
}

/// Without `./`, as the same place.
fn plain(p: &str) -> String {
    p.strip_prefix("./").unwrap_or(p).to_string()
}

fn as_map(t: &Tree) -> MapPack {
    MapPack::new(t.iter().map(|(p, c)| (p.as_str().into(), ImmutBytes::from(c.clone()))).collect::<HashMap<_, _>>())
}

fn of_map(m: &MapPack) -> Tree {
    m.files.iter().map(|(p, c)| (plain(p), c.as_ref().to_vec())).collect()
}

struct Case<'a> {
    ctx: &'a Ctx,
    kind: &'a str,
    want: &'a Tree,
}

impl Case<'_> {
    fn bad(&self, sig: &str, d: Value) {
        self.ctx.violate(sig, json!({"pack": self.kind, "files": self.want.keys().collect::<Vec<_>>(), "detail": d}));
    }

    fn same(&self, sig: &str, got: &Tree, want: &Tree) {
        if got != want {
            self.bad(sig, json!(web::diff(got, want)));
        }
    }

    /// All that must be true of a pack with these files. `make` opens it anew.
    fn judge<P: PackFs + PackExt>(&self, r: &mut Rng, make: &dyn Fn() -> P, out: &Path) {
        let (v, e) = all(&mut make());
        if let Err(e) = e {
            return self.bad("whole-pack-fails", json!(format!("{e:?}")));
        }
        let got: Tree = v.iter().map(|(p, c)| (plain(p), c.clone())).collect();
        if got.len() != v.len() {
            self.bad("file-delivered-twice", json!(v.iter().map(|(p, _)| p).collect::<Vec<_>>()));
        }
        self.same("other-files", &got, self.want);
        // Packs may name one place in several ways; maps of files go by the names.
        let names: HashMap<String, String> = v.iter().map(|(p, _)| (plain(p), p.clone())).collect();
        // Some of them.
        let m = r.range(2, 3) as u64;
        let keep = move |p: &str| h64(&plain(p)) % m == 0;
        let some: Tree = self.want.iter().filter(|(p, _)| keep(p)).map(|(p, c)| (p.clone(), c.clone())).collect();
        let mut p = make();
        let (v, e) = all(&mut p.filter(keep));
        if e.is_err() {
            self.bad("filtered-pack-fails", json!(format!("{e:?}")));
        }
        self.same("filter-not-obeyed", &v.into_iter().map(|(p, c)| (plain(&p), c)).collect(), &some);
        // The reader refuses one.
        let stop = r.below(self.want.len());
        let mut seen = 0;
        let e = make().read_all(&mut |_, f| {
            if seen == stop {
                seen += 1;
                return Err(PackageError::Other(Some("enough".into())));
            }
            seen += 1;
            // At times without reading the whole file.
            if seen % 2 == 0 {
                slurp(f)?;
            }
            Ok(())
        });
        if e != Err(PackageError::Other(Some("enough".into()))) || seen != stop + 1 {
            self.bad("refusal-not-obeyed", json!({"got": format!("{e:?}"), "seen": seen, "stop": stop}));
        }
        // Clones.
        let to = out.join("clone/of/it");
        match DirPack::new(&to).clone_into_pack(&mut make()) {
            Ok(()) => match web::disk(&to) {
                Ok(d) => self.same("clone-on-disk-differs", &d, self.want),
                Err(e) => self.bad("clone-on-disk-differs", json!(e.to_string())),
            },
            Err(e) => self.bad("clone-fails", json!(e.to_string())),
        }
        // Over another.
        let mut over = self.want.clone();
        let old: Tree = web::tree(r, false).into_iter().filter(|(p, _)| !over.keys().any(|w| w.starts_with(p.as_str()) || p.starts_with(w.as_str()))).collect();
        let mut m = as_map(&old);
        for p in self.want.keys().step_by(2) {
            m.files.insert(names.get(p).unwrap_or(p).as_str().into(), ImmutBytes::from(b"an older and much longer text than the newer one".repeat(50)));
        }
        let to = out.join("over");
        web::write(&to, &of_map(&m));
        over.extend(old);
        let (a, b) = (m.clone_into_pack(&mut make()), DirPack::new(&to).clone_into_pack(&mut make()));
        if a.is_err() || b.is_err() {
            self.bad("clone-fails", json!(format!("{a:?} {b:?}")));
        }
        self.same("clone-in-memory-differs", &of_map(&m), &over);
        self.same("clone-over-another-differs", &web::disk(&to).unwrap_or_default(), &over);
        self.ctx.count(self.kind, 1);
    }
}

fn good(ctx: &Ctx, r: &mut Rng, i: usize) {
    let sc = Scratch::new("packs");
    let t = web::tree(r, false);
    match r.below(4) {
        0 => {
            // In a directory, which may be a hidden one, with hidden files and links to files.
            let dir = sc.path().join(*r.pick(&["src", ".src", "a/.b/c", "..x"]));
            web::write(&dir, &t);
            if r.chance(1, 2) {
                let _ = std::fs::create_dir_all(dir.join(".git/objects"));
                std::fs::write(dir.join(".git/objects/x"), "hidden").expect("write");
                std::fs::write(dir.join(".gitignore"), "hidden").expect("write");
            }
            let mut t = t.clone();
            if r.chance(1, 3) {
                std::fs::write(sc.path().join("elsewhere"), "linked").expect("write");
                let _ = std::os::unix::fs::symlink(sc.path().join("elsewhere"), dir.join("a-link"));
                t.insert("a-link".into(), b"linked".to_vec());
            }
            if r.chance(1, 3) {
                let _ = std::fs::create_dir_all(dir.join("an-empty-directory"));
            }
            Case { ctx, kind: "directory", want: &t }.judge(r, &|| DirPack::new(&dir), sc.path());
        }
        1 => Case { ctx, kind: "map", want: &t }.judge(r, &|| as_map(&t), sc.path()),
        2 => {
            let dots = r.chance(1, 3);
            let a = web::tarball(r, &t, dots);
            Case { ctx, kind: "tarball", want: &t }.judge(r, &|| TarballPack::new(std::io::Cursor::new(a.clone())), sc.path());
            broken(ctx, r, &t, &a);
        }
        _ => {
            let s = spec("preview", &format!("pack-{i}"), "0.0.1");
            let a = web::gzip(&web::tarball(r, &t, false));
            {
                let a = a.clone();
                web::route(&url(&s), move || web::body(200, a.clone()));
            }
            let c = Case { ctx, kind: "download", want: &t };
            if r.chance(1, 2) {
                c.judge(r, &|| UniversePack::new(s.clone()), sc.path());
            } else {
                c.judge(r, &|| HttpPack::new(s.clone(), url(&s)), sc.path());
            }
            web::unroute(&url(&s));
            let (v, e) = all(&mut UniversePack::new(s.clone()));
            if !v.is_empty() || e != Err(PackageError::NotFound(s.clone())) {
                c.bad("missing-download", json!(format!("{e:?}")));
            }
            let cut = r.below(a.len() * 3 / 4);
            web::route(&url(&s), move || web::body(200, a[..cut].to_vec()));
            let (v, e) = all(&mut UniversePack::new(s.clone()));
            if e.is_ok() && v.len() < t.len() {
                c.bad("cut-download-succeeds", json!({"cut": cut, "delivered": v.len()}));
            }
            web::unroute(&url(&s));
        }
    }
    ctx.eval(h64(&t), true);
}

/// A tarball that breaks off in some file.
fn broken(ctx: &Ctx, r: &mut Rng, t: &Tree, a: &[u8]) {
    // The last block in use.
    let used = a.len() - a.iter().rev().take_while(|b| **b == 0).count();
    let cut = r.below(used);
    let c = Case { ctx, kind: "broken tarball", want: t };
    match guard(|| all(&mut TarballPack::new(std::io::Cursor::new(a[..cut].to_vec())))) {
        Ok((v, e)) => {
            let lost = v.len() < t.len() || v.iter().any(|(p, b)| t.get(&plain(p)) != Some(b));
            // Where a file ends, so may the archive.
            if e.is_ok() && lost && cut % 512 != 0 {
                c.bad("cut-tarball-succeeds", json!({"cut": cut, "of": used}));
            }
            for (p, b) in &v {
                match t.get(&plain(p)) {
                    Some(w) if w.starts_with(b) => {}
                    _ if e.is_err() && v.last().is_some_and(|l| l.0 == *p) => {}
                    _ => c.bad("invented-file", json!({"path": p, "cut": cut})),
                }
            }
            ctx.count("broken", 1);
        }
        Err(p) => ctx.on_panic("reading a cut tarball", &p, json!({"cut": cut})),
    }
}

/// Files that want to be elsewhere.
fn hostile(ctx: &Ctx, r: &mut Rng) {
    let sc = Scratch::new("slip");
    // Deep enough that no number of `..` here leads out of the scratch directory.
    let target = sc.path().join("a/b/c/d/target");
    let absolute = sc.path().join("absolute/evil");
    let evil = match r.below(6) {
        0 => "../evil".to_string(),
        1 => "../../evil".into(),
        2 => "x/../../evil".into(),
        3 => absolute.display().to_string(),
        4 => "./../evil".into(),
        _ => "x/y/../../../evil/evil".into(),
    };
    let mut t = web::tree(r, false);
    t.insert(evil.clone(), b"evil".to_vec());
    if r.chance(1, 2) {
        std::fs::create_dir_all(&target).expect("mkdir");
    }
    let res = if r.chance(1, 2) {
        DirPack::new(&target).clone_into_pack(&mut as_map(&t))
    } else {
        // Builders refuse such names; so write the header by hand.
        let mut b = tar::Builder::new(vec![]);
        for (p, c) in &t {
            let mut h = tar::Header::new_old();
            h.set_mode(0o644);
            h.set_size(c.len() as u64);
            if p.len() < 100 {
                h.as_old_mut().name[..p.len()].copy_from_slice(p.as_bytes());
            } else if *p == evil {
                return;
            } else {
                continue;
            }
            h.set_cksum();
            b.append(&h, &c[..]).expect("tar");
        }
        let a = b.into_inner().expect("tar");
        DirPack::new(&target).clone_into_pack(&mut TarballPack::new(std::io::Cursor::new(a)))
    };
    let mut outside = vec![];
    for (p, _) in web::disk(sc.path()).unwrap_or_default() {
        if !p.starts_with("a/b/c/d/target/") {
            outside.push(p);
        }
    }
    if !outside.is_empty() {
        ctx.violate("clone-escapes", json!({"name": evil, "written": outside}));
    } else if res.is_ok() {
        ctx.violate("hostile-name-ignored", json!({"name": evil}));
    }
    ctx.count("hostile", 1);
    ctx.eval(h64(&(evil, &t)), true);
}

pub fn c57(ctx: &Ctx) -> i32 {
    parallel(ctx, ctx.n(200, 20_000), 8, |i| {
        if ctx.violations() >= 5 {
            return;
        }
        let mut r = ctx.rng(i as u64);
        good(ctx, &mut r, i);
        if i % 3 == 0 {
            hostile(ctx, &mut r);
        }
    });
    for k in ["directory", "map", "tarball", "download", "hostile"] {
        ctx.require(k, 10);
    }
    ctx.finish(
        "exploration",
        "packages of up to twelve files (deep, long-named, empty, large) as directories, maps, tarballs and downloads: read, filtered, refused midway, cut off, cloned into fresh and used directories and maps; names that lead elsewhere; non-trivial: all; oracle: the files that were generated",
        &["the HTTP client is a stand-in; its server is a function"],
    )
}
