//! C24: removal stays inside.

use crate::fault;
use crate::tree;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};
use tinymist_std::fs::{flock::Filesystem, paths};
use vm_core::{json, parallel, Ctx, Rng, Scratch};

/// Grows a tree in `dir` with links to `outside` and into itself.
fn grow(r: &mut Rng, dir: &Path, outside: &Path, depth: usize, links: &mut u64) {
    let n = r.below(6);
    for k in 0..n {
        let name = match r.below(6) {
            0 => format!("é {k}"),
            1 => format!(".h{k}"),
            2 => format!("-r{k}"),
            3 => format!("new\nline{k}"),
            _ => format!("n{k}"),
        };
        let p = dir.join(name);
        match r.below(9) {
            0..=2 if depth > 0 => {
                if std::fs::create_dir(&p).is_ok() {
                    grow(r, &p, outside, depth - 1, links);
                    if r.chance(1, 5) {
                        tree::chmod(&p, *r.pick(&[0o500, 0o555, 0o700]));
                    }
                }
            }
            3 => {
                *links += 1;
                let _ = symlink(outside, &p);
            }
            4 => {
                *links += 1;
                let _ = symlink(outside.join("keep/file"), &p);
            }
            5 => {
                *links += 1;
                let t = *r.pick(&["..", ".", "/", "nowhere/at/all", "../../.."]);
                let _ = symlink(t, &p);
            }
            6 => {
                let _ = std::fs::hard_link(outside.join("keep/file"), &p);
            }
            _ => {
                let _ = std::fs::write(&p, b"content");
                if r.chance(1, 3) {
                    tree::chmod(&p, *r.pick(&[0o444, 0o000, 0o400]));
                }
            }
        }
    }
}

/// Siblings whose names are close to that of the lock file.
fn near_names(r: &mut Rng, dir: &Path, name: &str) {
    use std::os::unix::ffi::OsStringExt;
    let (stem, ext) = name.rsplit_once('.').unwrap_or((name, "lock"));
    let mut v: Vec<Vec<u8>> = vec![];
    for n in [
        stem.to_string(), format!("{stem}.db"), format!("{stem}.{ext}.old"), format!("{name}~"), format!("{name} "), format!(" {name}"),
        name.to_uppercase(), name.to_lowercase(), format!("{name}.lock"), format!("x{name}"), format!("other.{ext}"), format!(".{name}"),
        ext.to_string(), name.chars().rev().collect(), name.chars().skip(1).collect(),
    ] {
        v.push(n.into_bytes());
    }
    v.push([name.as_bytes(), b"\xff"].concat());
    v.push(b"\xfe\xff".to_vec());
    for n in v {
        if n.is_empty() || n == b"." || n == b".." || n == name.as_bytes() || r.chance(1, 2) {
            continue;
        }
        let p = dir.join(std::ffi::OsString::from_vec(n));
        match r.below(4) {
            0 => drop(std::fs::create_dir(&p).and_then(|()| std::fs::write(p.join(name), b"inner"))),
            1 => drop(symlink(name, &p)),
            _ => drop(std::fs::write(&p, b"near")),
        }
    }
}

fn make_outside(p: &Path) {
    std::fs::create_dir_all(p.join("keep/sub")).unwrap();
    std::fs::write(p.join("keep/file"), b"precious").unwrap();
    std::fs::write(p.join("keep/ro"), b"read only").unwrap();
    tree::chmod(&p.join("keep/ro"), 0o444);
    std::fs::write(p.join("keep/sub/x"), b"x").unwrap();
    let _ = symlink("keep/file", p.join("link"));
}

/// Everything runs as an unprivileged user in a child process, so that an escaped removal can reach scratch files only.
pub fn child(op: &[String]) -> anyhow::Result<i32> {
    // removal ROOT SEED COUNT: prints one line per problem and a summary.
    let root = PathBuf::from(&op[1]);
    let (seed, count): (u64, u64) = (op[2].parse()?, op[3].parse()?);
    for i in 0..count {
        let mut r = Rng::fork(seed, i);
        let d = root.join(format!("case{i}"));
        let outside = d.join("outside");
        let inside = d.join("inside");
        std::fs::create_dir_all(&inside)?;
        make_outside(&outside);
        let mut links = 0;
        grow(&mut r, &inside, &outside, 4, &mut links);
        if r.chance(1, 60) {
            // Very many entries.
            let wide = if r.chance(1, 2) { inside.clone() } else { inside.join("wide") };
            std::fs::create_dir_all(&wide)?;
            for k in 0..r.range(1_100, 5_000) {
                let p = wide.join(format!("entry {k}"));
                match k % 7 {
                    0 => std::fs::create_dir(&p)?,
                    1 => symlink(&outside, &p)?,
                    _ => std::fs::write(&p, b"w")?,
                }
            }
        }
        let kind = r.below(6);
        let before_out = tree::snap(&outside);
        let nodes = tree::snap(&inside).len();
        let mut bad: Vec<String> = vec![];
        let what;
        match kind {
            0..=1 => {
                what = "remove_dir_all";
                let blocked = unwritable_dirs(&inside);
                let res = paths::remove_dir_all(&inside);
                if res.is_ok() == std::fs::symlink_metadata(&inside).is_ok() {
                    bad.push(format!("result {:?} but the tree is {}", res.is_ok(), if inside.exists() { "there" } else { "gone" }));
                }
                if res.is_err() && !blocked {
                    bad.push(format!("a removable tree was not removed: {:#}", res.unwrap_err()));
                }
            }
            2 => {
                what = "remove_dir_all of a link";
                let l = d.join("thelink");
                let _ = symlink(&outside, &l);
                let res = paths::remove_dir_all(&l);
                if res.is_err() || std::fs::symlink_metadata(&l).is_ok() {
                    bad.push(format!("the link was not removed: {res:?}"));
                }
            }
            3 => {
                what = "remove_siblings";
                make_writable(&inside);
                let name = *r.pick(&["the lock", ".lock", "cache.lock", "lock", "a.b.c", "LOCK~", "lock.", ".", "l\u{f6}ck.db"]);
                let name = if name == "." { "x".repeat(200) } else { name.to_string() };
                near_names(&mut r, &inside, &name);
                let fs = Filesystem::new(inside.clone());
                let lock = fs.open_rw_exclusive_create(&name, "m")?;
                std::io::Write::write_all(&mut lock.file(), b"lock content")?;
                let res = lock.remove_siblings();
                if res.is_err() || tree::names(&inside) != [name.as_str()] || std::fs::read(inside.join(&name))? != b"lock content" {
                    bad.push(format!("siblings of {name:?}: {res:?}, left {:?}", tree::names(&inside)));
                }
                match fs.try_open_rw_exclusive_create(&name) {
                    Ok(None) => {}
                    o => bad.push(format!("the lock was lost: {o:?}")),
                }
            }
            4 => {
                what = "remove_file in a read-only directory";
                // Nothing can be removed there; no permission may change behind the links.
                let ro = d.join("rodir");
                std::fs::create_dir_all(&ro)?;
                let _ = symlink(outside.join("keep/ro"), ro.join("l"));
                let _ = symlink(&outside, ro.join("ld"));
                std::fs::write(ro.join("f"), b"f")?;
                tree::chmod(&ro, 0o555);
                let rs = [paths::remove_file(ro.join("l")), paths::remove_file(ro.join("ld")), paths::remove_dir_all(&ro)];
                if rs.iter().any(|r| r.is_ok()) || tree::names(&ro).len() != 3 {
                    bad.push("removal from a read-only directory reported success".into());
                }
                tree::chmod(&ro, 0o755);
            }
            _ => {
                what = "remove_file";
                make_writable(&inside);
                for (rel, n) in tree::snap(&inside) {
                    let p = inside.join(&rel);
                    let res = paths::remove_file(&p);
                    let dir = matches!(n, tree::Node::Dir { .. });
                    if res.is_ok() == dir || std::fs::symlink_metadata(&p).is_ok() != dir {
                        bad.push(format!("{rel:?} {n:?}: {res:?}"));
                    }
                }
            }
        }
        let after_out = tree::snap(&outside);
        if before_out != after_out {
            bad.push(format!("outside changed: {:?}", tree::delta(&before_out, &after_out)));
        }
        println!("{}", json!({"i": i, "what": what, "nodes": nodes, "links": links, "bad": bad}));
        make_writable(&d);
        let _ = std::fs::remove_dir_all(&d);
    }
    Ok(fault::OK)
}

fn unwritable_dirs(p: &Path) -> bool {
    // A directory that its owner cannot write stops the removal of what it contains.
    tree::snap(p).iter().any(|(rel, n)| {
        matches!(n, tree::Node::Dir { mode } if mode & 0o200 == 0) && !tree::names(&p.join(rel)).is_empty()
    })
}

fn make_writable(p: &Path) {
    for (rel, n) in tree::snap(p) {
        if let tree::Node::Dir { .. } = n {
            tree::chmod(&p.join(rel), 0o755);
        }
    }
}

/// Far deeper than a path can name.
pub fn child_deep(op: &[String]) -> anyhow::Result<i32> {
    let root = PathBuf::from(&op[1]);
    let depth: usize = op[2].parse()?;
    std::env::set_current_dir(&root)?;
    std::fs::create_dir("deep")?;
    std::env::set_current_dir("deep")?;
    for _ in 0..depth {
        std::fs::create_dir("directory")?;
        std::fs::write("file", b"f")?;
        std::env::set_current_dir("directory")?;
    }
    std::env::set_current_dir(&root)?;
    let r = paths::remove_dir_all(root.join("deep"));
    println!("{}", json!({"result": format!("{r:?}").chars().take(300).collect::<String>(), "gone": !root.join("deep").exists()}));
    Ok(if r.is_ok() != root.join("deep").exists() { fault::OK } else { fault::ERR })
}

fn unprivileged(args: &[&str]) -> std::io::Result<std::process::Output> {
    use std::os::unix::process::CommandExt;
    let mut c = std::process::Command::new(fault::exe());
    c.arg("child").args(args).stdin(std::process::Stdio::null()).stderr(std::process::Stdio::piped());
    if unsafe { libc::geteuid() } == 0 {
        c.uid(65534).gid(65534);
    }
    c.output()
}

pub fn c24(ctx: &Ctx) -> i32 {
    // A copy of this program that the unprivileged user can run, and a scratch directory of its own.
    parallel(ctx, ctx.n(24, 400), 8, |k| {
        let s = Scratch::new("removal");
        let own = s.path().join("own");
        std::fs::create_dir_all(&own).unwrap();
        tree::chmod(s.path(), 0o755);
        tree::chmod(&own, 0o777);
        let bystander = s.path().join("bystander");
        make_outside(&bystander);
        let before = tree::snap(&bystander);
        let seed = ctx.seed.wrapping_mul(7919) + k as u64;
        let out = match unprivileged(&["removal", own.to_str().unwrap(), &seed.to_string(), "40"]) {
            Ok(o) => o,
            Err(e) => return ctx.inconclusive(format!("cannot run as an unprivileged user: {e}")),
        };
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        if out.status.code() != Some(fault::OK) {
            use std::os::unix::process::ExitStatusExt;
            let why = json!({"status": format!("{}", out.status), "stderr": String::from_utf8_lossy(&out.stderr), "cases done": text.lines().count()});
            if out.status.code() == Some(fault::PANICKED) || out.status.signal().is_some() {
                ctx.violate("removal:crash", why);
            } else {
                ctx.inconclusive(format!("child: {why}"));
            }
        }
        for l in text.lines() {
            let Ok(v) = serde_json::from_str::<vm_core::Value>(l) else { continue };
            let what = v["what"].as_str().unwrap_or("?").to_string();
            ctx.count(&what, 1);
            ctx.count("links met", v["links"].as_u64().unwrap_or(0));
            ctx.count("nodes", v["nodes"].as_u64().unwrap_or(0));
            ctx.eval(vm_core::h64(&(seed, l)), v["nodes"].as_u64() > Some(1));
            ctx.sample(|| v.clone());
            if v["bad"].as_array().is_some_and(|b| !b.is_empty()) {
                ctx.violate(format!("removal:{what}"), json!({"seed": seed, "case": v}));
            }
        }
        if tree::snap(&bystander) != before {
            ctx.violate("removal:bystander", json!({"seed": seed}));
        }
    });
    for depth in [50, 700] {
        let s = Scratch::new("deep");
        tree::chmod(s.path(), 0o777);
        match unprivileged(&["deep", s.path().to_str().unwrap(), &depth.to_string()]) {
            Ok(o) if o.status.code() == Some(fault::OK) => {
                ctx.count("deep trees", 1);
                let text = String::from_utf8_lossy(&o.stdout).into_owned();
                ctx.eval(vm_core::h64(&("deep", depth)), true);
                if !text.contains("\"gone\":true") {
                    ctx.violate("removal:deep", json!({"depth": depth, "outcome": text}));
                }
            }
            Ok(o) => ctx.violate("removal:deep", json!({"depth": depth, "status": format!("{}", o.status), "out": String::from_utf8_lossy(&o.stdout)})),
            Err(e) => ctx.inconclusive(e.to_string()),
        }
    }
    ctx.require("remove_dir_all", 50);
    ctx.require("remove_siblings", 20);
    ctx.require("links met", 200);
    ctx.finish(
        "exploration",
        "one removal of a generated tree with links that lead outside, or of a link, or of the siblings of a lock file, as an unprivileged user; distinct by tree",
        &["concurrent modification of the tree during its removal is not covered"],
    )
}
