//! C62: paths as urls.
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

use lsp_types::Url;
use tinymist_query::{path_res_to_url, path_to_url, untitled_url, url_to_path};
use tinymist_world::vfs::PathResolution;
use typst::syntax::VirtualPath;
use vm_core::{h64, json, parallel, Ctx, Rng, Value};

fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
    })
}

const NAMES: &[&str] = &[
    "a", "main.typ", "Untitled-1", "a b", " lead", "trail ", "ü", "日本", "😀", "a?b", "a#b", "100%", "%41", "%2F", "a%zz", "[x]", "c:", "a:b", "x\\y",
    "...", "~", "a&b=c", "tab\there", "nl\nhere", "\"q\"", "<t>", "{x}", "|", "^", "`", "untitled", "untitled:a", "file:", "localhost", "@preview", "\u{301}", "a;b", "+", "*",
];

fn name(r: &mut Rng) -> Vec<u8> {
    match r.below(5) {
        0 => (0..r.range(1, 6)).map(|_| loop { let b = r.range(1, 255) as u8; if b != b'/' { break b } }).collect(),
        1 => r.text(6).replace(['/', '\0'], "_").into_bytes(),
        _ => r.pick(NAMES).as_bytes().to_vec(),
    }
}

fn path(r: &mut Rng, utf8: bool) -> Option<PathBuf> {
    let mut b = vec![];
    for k in 0..r.range(1, 4) {
        if k > 0 {
            b.push(b'/');
        }
        let n = name(r);
        if n.is_empty() || n == b"." || n == b".." || (utf8 && std::str::from_utf8(&n).is_err()) {
            return None;
        }
        b.extend(n);
    }
    Some(PathBuf::from(OsString::from_vec(b)))
}

fn roundtrip(p: &Path) -> Option<Value> {
    let url = quiet(|| path_to_url(p));
    let Ok(Ok(url)) = url else {
        return Some(json!({"path": format!("{p:?}"), "url": format!("{url:?}")}));
    };
    // As it travels.
    let again = Url::parse(url.as_str());
    let back = again.as_ref().ok().map(|u| quiet(|| url_to_path(u.clone())));
    match back {
        Some(Ok(b)) if b == p && again.as_ref() == Ok(&url) => None,
        _ => Some(json!({"path": format!("{p:?}"), "url": url.as_str(), "parsed": format!("{again:?}"), "back": format!("{back:?}")})),
    }
}

pub fn c62(ctx: &Ctx) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    parallel(ctx, ctx.n(100_000, 5_000_000), 8, |i| {
        if ctx.violations() >= 3 {
            return;
        }
        let mut r = ctx.rng(i as u64);
        let utf8 = i % 2 == 0;
        let Some(p) = path(&mut r, utf8) else { return };
        ctx.eval(h64(&p), true);
        if utf8 {
            // Documents that are nowhere on the disk.
            let q = Path::new("/untitled").join(&p);
            if let Some(d) = roundtrip(&q) {
                ctx.violate("untitled", d);
            }
            let u = path_to_url(&q).ok();
            if u.as_ref().is_some_and(|u| u.scheme() != "untitled" && p != Path::new("nEoViM-BuG")) {
                ctx.violate("untitled-scheme", json!({"path": format!("{q:?}"), "url": format!("{u:?}")}));
            }
            let v = quiet(|| path_res_to_url(PathResolution::Rootless(std::borrow::Cow::Owned(VirtualPath::new(&p)))));
            let back = match &v {
                Ok(Ok(u)) => quiet(|| url_to_path(u.clone())),
                _ => Err("no url".into()),
            };
            if back.as_deref() != Ok(q.as_path()) {
                ctx.violate("rootless", json!({"path": format!("{p:?}"), "url": format!("{v:?}"), "back": format!("{back:?}")}));
            }
            let w = untitled_url(&p);
            if !matches!(&w, Ok(w) if w.scheme() == "untitled" && quiet(|| url_to_path(w.clone())).as_deref() == Ok(q.as_path())) {
                ctx.violate("untitled-url", json!({"path": format!("{p:?}"), "url": format!("{w:?}")}));
            }
            ctx.count("untitled", 1);
        } else {
            let q = Path::new("/").join(&p);
            if q.starts_with("/untitled") {
                return;
            }
            if let Some(d) = roundtrip(&q) {
                ctx.violate("file", d);
            }
            let (a, b) = (path_to_url(&q), path_res_to_url(PathResolution::Resolved(q.clone())));
            if a.as_ref().ok() != b.as_ref().ok() {
                ctx.violate("resolved", json!({"path": format!("{q:?}")}));
            }
            // What clients write otherwise for the same file.
            if let Ok(u) = a {
                let s = u.as_str();
                let mut v = vec![s.replacen("file:///", "file://localhost/", 1), s.replacen("file:", "FILE:", 1)];
                let all: String = q.as_os_str().as_encoded_bytes().iter().map(|b| if *b == b'/' { "/".into() } else { format!("%{b:02x}") }).collect();
                v.push(format!("file://{all}"));
                for s in v {
                    let got = Url::parse(&s).map_err(|e| e.to_string()).and_then(|u| quiet(|| url_to_path(u)));
                    if got.as_deref() != Ok(q.as_path()) {
                        ctx.violate("spelling", json!({"url": s, "got": format!("{got:?}"), "want": format!("{q:?}")}));
                    }
                }
            }
            ctx.count("files", 1);
        }
    });
    // Relative paths have no url.
    for p in ["a", "a/b", "", "./a"] {
        if !matches!(quiet(|| path_to_url(Path::new(p))), Ok(Err(_))) {
            ctx.violate("relative", json!({"path": p}));
        }
    }
    for (what, u) in [("host", "file://host/a.typ"), ("authority", "inmemory://model/1"), ("opaque", "mailto:x")] {
        if let Err(e) = quiet(|| url_to_path(Url::parse(u).unwrap())) {
            ctx.violate(format!("panic:{what}"), json!({"url": u, "panic": e}));
        }
    }
    for u in ["file:///", "file://"] {
        let got = quiet(|| url_to_path(Url::parse(u).unwrap()));
        if got.as_deref() != Ok(Path::new("/untitled/nEoViM-BuG")) {
            ctx.violate("unnamed", json!({"url": u, "got": format!("{got:?}")}));
        }
    }
    ctx.require("files", 1000);
    ctx.require("untitled", 1000);
    ctx.finish(
        "exploration",
        "paths of arbitrary bytes, and of untitled documents, with everything that means something in a url; oracle: the path itself, also through other spellings of the url",
        &["untitled paths are UTF-8", "paths are normalized"],
    )
}
