//! Where packages are found.

use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

use parking_lot::Mutex;
use serde_json::json;
use tinymist_package::registry::{HttpRegistry, Notifier, PackageRegistry, PackageStorage};
use tinymist_std::ImmutPath;
use typst::diag::PackageError;
use typst::syntax::package::{PackageSpec, PackageVersion, VersionlessPackageSpec};
use vm_core::{h64, parallel, Ctx, Rng, Scratch};

use crate::web::{self, body, Tree};

/// Remembers what it is told.
#[derive(Default)]
pub struct Told(std::sync::Mutex<Vec<PackageSpec>>);
impl Notifier for Told {
    fn downloading(&self, s: &PackageSpec) {
        self.0.lock().unwrap().push(s.clone());
    }
}

pub fn spec(ns: &str, name: &str, v: &str) -> PackageSpec {
    PackageSpec { namespace: ns.into(), name: name.into(), version: v.parse().expect("version") }
}

pub fn url(s: &PackageSpec) -> String {
    format!("https://packages.typst.org/preview/{}-{}.tar.gz", s.name, s.version)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Web {
    Has,
    Lacks,
    Fails(u16),
    Down,
    Garbage,
}

fn storage_case(ctx: &Ctx, r: &mut Rng, i: usize) {
    let sc = Scratch::new("pkg");
    let (data, cache) = (sc.path().join("data"), sc.path().join("cache"));
    let with_data = r.chance(4, 5);
    let with_cache = r.chance(4, 5);
    let names: Vec<String> = ["alpha", "alphabet", "a"].iter().map(|n| format!("{n}-{i}")).collect();
    let versions = ["0.1.0", "0.2.0", "0.10.0", "1.0.0", "0.1.10", "10.0.0", "9.9.9", "0.0.0"];
    let spaces = ["preview", "local", "mine"];
    let mut here: BTreeMap<(u8, String), Tree> = BTreeMap::new();
    let mut web: BTreeMap<String, Web> = BTreeMap::new();
    let mut specs = vec![];
    let mut n = 0u32;
    for ns in spaces {
        for name in &names {
            for v in versions {
                if !r.chance(1, 3) {
                    continue;
                }
                let s = spec(ns, name, v);
                for (k, base) in [(0u8, &data), (1, &cache)] {
                    if r.chance(1, 3) {
                        n += 1;
                        let t: Tree = [("lib.typ".to_string(), format!("{k} {s} {n}").into_bytes())].into();
                        web::write(&base.join(ns).join(name).join(v), &t);
                        here.insert((k, s.to_string()), t);
                    }
                }
                let w = match r.below(8) {
                    0..=3 => Web::Has,
                    4 => Web::Lacks,
                    5 => Web::Fails(*r.pick(&[500, 403, 503, 400])),
                    6 => Web::Down,
                    _ => Web::Garbage,
                };
                web.insert(s.to_string(), w);
                specs.push(s);
            }
        }
    }
    // Things that are not versions.
    if r.chance(1, 2) {
        for stray in ["latest", ".DS_Store", "1.0", "1.0.0.0", "v1.0.0", "99.0.0-beta", ".unpacking-99.0.0-1"] {
            let d = data.join(r.pick(&spaces)).join(r.pick(&names)).join(stray);
            let _ = std::fs::create_dir_all(d);
        }
    }
    let fetched: Arc<std::sync::Mutex<BTreeMap<String, usize>>> = Arc::default();
    for s in specs.iter().filter(|s| s.namespace == "preview") {
        let (w, f, key) = (web[&s.to_string()], fetched.clone(), s.to_string());
        let t: Tree = [("lib.typ".to_string(), format!("web {s}").into_bytes())].into();
        let a = web::gzip(&web::tarball(r, &t, false));
        web::route(&url(s), move || {
            *f.lock().unwrap().entry(key.clone()).or_default() += 1;
            match w {
                Web::Has => body(200, a.clone()),
                Web::Lacks => body(404, vec![]),
                Web::Fails(c) => body(c, b"sorry".to_vec()),
                Web::Down => reqwest::Answer::Fail("no route to host".into()),
                Web::Garbage => body(200, b"<html>not a tarball</html>".to_vec()),
            }
        });
    }
    let told: Arc<Mutex<Told>> = Arc::default();
    let ip = |p: &PathBuf| -> ImmutPath { p.as_path().into() };
    let st = PackageStorage::new(with_cache.then(|| ip(&cache)), with_data.then(|| ip(&data)), None, told.clone());
    let mut trace = vec![];
    let bad = |sig: &str, d: serde_json::Value, trace: &Vec<String>| {
        ctx.violate(sig, json!({"data": with_data, "cache": with_cache, "detail": d, "before": trace}));
    };
    for _ in 0..r.range(5, 30) {
        let Some(s) = (!specs.is_empty()).then(|| r.pick(&specs).clone()) else { break };
        let s = if r.chance(1, 10) { spec(&s.namespace, &s.name, "77.7.7") } else { s };
        let key = s.to_string();
        let sub = format!("{}/{}/{}", s.namespace, s.name, s.version);
        let before = (fetched.lock().unwrap().get(&key).copied().unwrap_or(0), told.lock().0.lock().unwrap().len());
        // What must happen.
        let mut fetch = false;
        let want: Result<(PathBuf, Tree), Option<PackageError>> = if with_data && here.contains_key(&(0, key.clone())) {
            Ok((data.join(&sub), here[&(0, key.clone())].clone()))
        } else if with_cache && here.contains_key(&(1, key.clone())) {
            Ok((cache.join(&sub), here[&(1, key.clone())].clone()))
        } else if with_cache && s.namespace == "preview" {
            fetch = true;
            match web.get(&key) {
                Some(Web::Has) => {
                    let t: Tree = [("lib.typ".to_string(), format!("web {s}").into_bytes())].into();
                    here.insert((1, key.clone()), t.clone());
                    Ok((cache.join(&sub), t))
                }
                Some(Web::Lacks) | None => Err(Some(PackageError::NotFound(s.clone()))),
                _ => Err(None),
            }
        } else {
            Err(Some(PackageError::NotFound(s.clone())))
        };
        let got = st.prepare_package(&s);
        trace.push(format!("{s} = {got:?}"));
        match (&want, &got) {
            (Ok((p, t)), Ok(g)) if **g == **p => match web::disk(g) {
                Ok(d) if d == *t => {}
                o => bad("package-has-other-files", json!({"spec": key, "got": format!("{:?}", o.map(|o| web::diff(&o, t)))}), &trace),
            },
            (Err(Some(e)), Err(g)) if e == g => {}
            (Err(None), Err(g)) => {
                let ok = match web.get(&key) {
                    Some(Web::Garbage) => matches!(g, PackageError::MalformedArchive(_)),
                    _ => matches!(g, PackageError::NetworkFailed(_)),
                };
                if !ok {
                    bad("other-error", json!({"spec": key, "got": format!("{g:?}"), "web": format!("{:?}", web.get(&key))}), &trace);
                }
            }
            _ => bad("resolved-otherwise", json!({"spec": key, "want": format!("{want:?}"), "got": format!("{got:?}")}), &trace),
        }
        let after = (fetched.lock().unwrap().get(&key).copied().unwrap_or(0), told.lock().0.lock().unwrap().len());
        if s.namespace == "preview" && web.contains_key(&key) && (after.0 > before.0) != fetch {
            bad("fetched-or-not", json!({"spec": key, "fetch": fetch}), &trace);
        }
        if after.1 != before.1 + fetch as usize || (fetch && told.lock().0.lock().unwrap().last() != Some(&s)) {
            bad("notified-or-not", json!({"spec": key, "fetch": fetch}), &trace);
        }
        // A failure leaves no package behind.
        if want.is_err() && cache.join(&sub).exists() && !here.contains_key(&(1, key.clone())) {
            bad("failure-left-a-package", json!({"spec": key}), &trace);
        }
        ctx.count(if fetch { "downloads" } else { "local" }, 1);
    }
    // The newest version of a package that is not from the registry.
    for ns in &spaces[1..] {
        for name in &names {
            let want: Option<PackageVersion> = with_data
                .then(|| specs.iter().filter(|s| s.namespace == *ns && s.name == name.as_str() && here.contains_key(&(0, s.to_string()))).map(|s| s.version).max())
                .flatten();
            let got = st.determine_latest_version(&VersionlessPackageSpec { namespace: (*ns).into(), name: name.as_str().into() });
            if got.as_ref().ok().copied() != want {
                bad("other-latest-version", json!({"of": format!("@{ns}/{name}"), "got": format!("{got:?}"), "want": format!("{want:?}")}), &trace);
            }
            ctx.count("latest versions", 1);
        }
    }
    let reg = HttpRegistry::new(None, with_data.then(|| ip(&data)), with_cache.then(|| ip(&cache)));
    if with_data && with_cache {
        if reg.paths() != vec![ip(&data), ip(&cache)] || reg.local_path() != Some(ip(&data)) {
            bad("registry-paths", json!({"got": format!("{:?}", reg.paths())}), &trace);
        }
        if let Some(((k, s), _)) = here.iter().next() {
            let s: PackageSpec = s.parse().unwrap();
            let want = [&data, &cache][if here.contains_key(&(0, s.to_string())) { 0 } else { *k as usize }]
                .join(format!("{}/{}/{}", s.namespace, s.name, s.version));
            if reg.resolve(&s).ok().as_deref() != Some(&*want) {
                bad("registry-resolves-otherwise", json!({"spec": s.to_string()}), &trace);
            }
        }
    }
    for s in specs.iter().filter(|s| s.namespace == "preview") {
        web::unroute(&url(s));
    }
    ctx.eval(h64(&trace), !trace.is_empty());
    ctx.sample(|| json!({"resolved": trace.iter().take(12).collect::<Vec<_>>()}));
}

static INDEX: std::sync::Mutex<()> = std::sync::Mutex::new(());

/// The index: fetched once, by however many threads ask at once; the newest version by number.
fn index_case(ctx: &Ctx, r: &mut Rng) {
    let _one = INDEX.lock().unwrap_or_else(|e| e.into_inner());
    let iurl = "https://packages.typst.org/preview/index.json";
    let mut rows = vec![];
    let mut want: BTreeMap<String, PackageVersion> = BTreeMap::new();
    let mut list = vec![];
    for _ in 0..r.below(30) {
        let name = format!("{}{}", r.pick(&["cetz", "cet", "tidy", "a", "é"]), r.below(3));
        let v = PackageVersion { major: r.below(3) as u32, minor: r.below(12) as u32, patch: r.below(12) as u32 };
        let d = r.chance(2, 3).then(|| r.text(12));
        let mut row = json!({"name": name, "version": v.to_string(), "authors": ["x"], "updatedAt": 5});
        if let Some(d) = &d {
            row["description"] = json!(d);
        } else if r.chance(1, 2) {
            row["description"] = json!(null);
        }
        rows.push(row);
        list.push((name.clone(), v, d));
        let e = want.entry(name).or_insert(v);
        *e = (*e).max(v);
    }
    let kind = r.below(6);
    let asked = Arc::new(AtomicUsize::new(0));
    let a = asked.clone();
    let text = serde_json::to_vec(&rows).unwrap();
    web::route(iurl, move || {
        a.fetch_add(1, Ordering::SeqCst);
        std::thread::sleep(std::time::Duration::from_micros(300));
        match kind {
            0 => body(500, b"[]".to_vec()),
            1 => body(200, text[..text.len() / 2].to_vec()),
            2 => reqwest::Answer::Fail("down".into()),
            _ => body(200, text.clone()),
        }
    });
    let broken = kind < 3;
    let st = Arc::new(PackageStorage::new(None, None, None, Arc::<Mutex<Told>>::default()));
    if st.cached_index().is_some() {
        ctx.violate("index-before-it-is-fetched", json!(null));
    }
    let hs: Vec<_> = (0..r.range(1, 5))
        .map(|_| {
            let st = st.clone();
            std::thread::spawn(move || st.download_index().to_vec())
        })
        .collect();
    let mut all: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
    all.push(Ok(st.cached_index().unwrap_or_default().to_vec()));
    let expect: Vec<_> = if broken { vec![] } else { list.clone() };
    for got in all {
        let Ok(got) = got else {
            ctx.violate("index-panics", json!({"kind": kind}));
            continue;
        };
        let same = got.len() == expect.len()
            && got.iter().zip(&expect).all(|((s, d), (n, v, w))| s.namespace == "preview" && s.name == n.as_str() && s.version == *v && d.as_deref() == w.as_deref());
        if !same {
            ctx.violate("other-index", json!({"kind": kind, "got": format!("{got:?}"), "want": format!("{expect:?}")}));
        }
    }
    for name in want.keys().cloned().chain(["nothing".to_string()]).collect::<BTreeSet<_>>() {
        let got = st.determine_latest_version(&VersionlessPackageSpec { namespace: "preview".into(), name: name.as_str().into() }).ok();
        let w = (!broken).then(|| want.get(&name).copied()).flatten();
        if got != w {
            ctx.violate("other-latest-version-in-index", json!({"name": name, "got": format!("{got:?}"), "want": format!("{w:?}")}));
        }
    }
    if asked.load(Ordering::SeqCst) != 1 {
        ctx.violate("index-fetched-again", json!({"times": asked.load(Ordering::SeqCst)}));
    }
    web::unroute(iurl);
    ctx.count("indices", 1);
    ctx.eval(h64(&format!("{list:?}{kind}")), !list.is_empty());
}

pub fn c55(ctx: &Ctx) -> i32 {
    parallel(ctx, ctx.n(40, 4000), 8, |i| {
        if ctx.violations() >= 5 {
            return;
        }
        let mut r = ctx.rng(i as u64);
        storage_case(ctx, &mut r, i);
        index_case(ctx, &mut r);
    });
    ctx.require("downloads", 100);
    ctx.require("local", 100);
    ctx.require("latest versions", 100);
    ctx.require("indices", 20);
    ctx.finish(
        "exploration",
        "up to 30 resolutions each over random data and cache directories (either may be absent) and a server that has, lacks, fails, is down or answers garbage; registry indices, whole and broken, asked for by up to five threads; non-trivial: something was resolved; oracle: a model of the two directories and the server",
        &["the HTTP client is a stand-in; its server is a function"],
    )
}
