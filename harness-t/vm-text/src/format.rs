//! C61: formatting edits.
use std::sync::Arc;

use lsp_types::TextEdit;
use tinymist::task::{FormatTask, FormatUserConfig, FormatterConfig};
use tinymist_query::PositionEncoding;
use typst::syntax::Source;
use vm_core::{h64, json, parallel, Ctx, Rng, Value};

use crate::model::*;

/// A variation of the text, as a formatter might make, or a spiteful one.
fn vary(r: &mut Rng, t: &str) -> String {
    let b: Vec<usize> = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect();
    match r.below(8) {
        0 => t.to_owned(),
        1 => text(r, 40),
        2 => String::new(),
        // Another character that shares bytes with the one that it replaces.
        3 | 4 => {
            let near: &[(char, char)] = &[('é', 'ĩ'), ('中', '丮'), ('😀', '😁'), ('é', 'ù'), ('中', '上'), ('😀', '🤀'), ('文', '攇')];
            let (x, y) = *r.pick(near);
            let mut s: Vec<char> = t.chars().collect();
            if s.is_empty() {
                s.push(x);
            }
            let k = r.below(s.len());
            if r.chance(1, 2) {
                s[k] = if s[k] == x { y } else { x };
            } else {
                let c = s[k];
                let v = c as u32 ^ (1 << r.below(12));
                s[k] = char::from_u32(v).filter(|c| *c != '\0').unwrap_or(y);
            }
            s.into_iter().collect()
        }
        _ => {
            let mut s = t.to_owned();
            for _ in 0..r.range(1, 3) {
                let b: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
                let (x, y) = (*r.pick(&b), *r.pick(&b));
                let (x, y) = (x.min(y), x.max(y));
                let y = if r.chance(1, 2) { x } else { y };
                // Repeating what is there makes prefixes and suffixes overlap.
                let w = if r.chance(1, 2) { s[x..y].to_owned() + &s[x..y] } else { text(r, 5) };
                s.replace_range(x..y, &w);
            }
            let _ = &b;
            s
        }
    }
}

fn run(rt: &tokio::runtime::Runtime, f: &FormatTask, t: &str) -> Result<Option<Vec<TextEdit>>, String> {
    let rec = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match f.run(Source::detached(t)) {
        Ok(futures::future::MaybeDone::Done(d)) => d.map_err(|e| format!("{e:?}")),
        Ok(futures::future::MaybeDone::Future(x)) => rt.block_on(x).map_err(|e| format!("{e:?}")),
        Ok(_) => Err("gone".into()),
        Err(e) => Err(format!("{e:?}")),
    }));
    rec.unwrap_or_else(|e| {
        Err(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into()))
    })
}

fn config(to: Option<String>, e: PositionEncoding) -> FormatUserConfig {
    let to = Arc::new(move |_: &str| to.clone());
    FormatUserConfig { config: FormatterConfig::Typstyle(Box::new(typstyle_core::Config(to))), position_encoding: e }
}

fn judge(t: &str, want: &Option<String>, got: &Result<Option<Vec<TextEdit>>, String>, e: PositionEncoding) -> Option<Value> {
    let ok = match (want, got) {
        (None, Ok(None)) => true,
        (Some(w), Ok(Some(edits))) => match apply(t, edits, e) {
            // Clients must not be made to believe that a formatted text has changed.
            Ok(x) => x == *w && (t != w || edits.iter().all(|e| e.range.start == e.range.end && e.new_text.is_empty())),
            Err(why) => return Some(json!({"text": t, "formatted": want, "encoding": format!("{e:?}"), "edits": format!("{edits:?}"), "because": why})),
        },
        _ => false,
    };
    (!ok).then(|| json!({"text": t, "formatted": want, "encoding": format!("{e:?}"), "got": format!("{got:?}")}))
}

pub fn c61(ctx: &Ctx) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).build().expect("runtime");
    parallel(ctx, ctx.n(60_000, 2_000_000), 8, |i| {
        if ctx.violations() >= 3 {
            return;
        }
        let mut r = ctx.rng(i as u64);
        let f = FormatTask::new(config(None, PositionEncoding::Utf16));
        for _ in 0..2 {
            let t = text(&mut r, 30);
            let want = (!r.chance(1, 12)).then(|| vary(&mut r, &t));
            let e = *r.pick(&[PositionEncoding::Utf16, PositionEncoding::Utf8]);
            // A change that does not split or join line ends at the edges of what is equal.
            f.change_config(config(want.clone(), e));
            let got = run(&rt, &f, &t);
            if let Some(d) = judge(&t, &want, &got, e) {
                ctx.violate("format", d);
            }
            ctx.count(if want.as_deref() == Some(t.as_str()) { "unchanged" } else { "changed" }, 1);
            ctx.eval(h64(&(&t, &want)), want.as_deref() != Some(t.as_str()));
        }
        // A configuration that changes while a format is under way does not mix with it.
        if i % 16 == 0 {
            let t = text(&mut r, 30);
            let ways: Vec<(Option<String>, PositionEncoding)> = (0..2).map(|k| (Some(vary(&mut r, &t)), [PositionEncoding::Utf16, PositionEncoding::Utf8][k])).collect();
            f.change_config(config(ways[0].0.clone(), ways[0].1));
            let g = f.clone();
            let bad = std::sync::Mutex::new(None);
            std::thread::scope(|s| {
                s.spawn(|| {
                    for k in 0..40 {
                        let (w, e) = ways[k % 2].clone();
                        g.change_config(config(w, e));
                    }
                });
                for _ in 0..2 {
                    s.spawn(|| {
                        for _ in 0..10 {
                            let got = run(&rt, &f, &t);
                            if ways.iter().all(|(w, e)| judge(&t, w, &got, *e).is_some()) {
                                *bad.lock().unwrap() = Some(json!({"text": t, "ways": format!("{ways:?}"), "got": format!("{got:?}")}));
                            }
                            ctx.count("formats while the configuration changes", 1);
                        }
                    });
                }
            });
            if let Some(d) = bad.into_inner().unwrap() {
                ctx.violate("mixed", d);
            }
        }
    });
    ctx.require("changed", 1000);
    ctx.require("unchanged", 100);
    ctx.finish(
        "exploration",
        "texts and what a formatter makes of them, among them characters that share bytes, repetitions that make common beginnings and ends overlap, \
         failures, and configurations that change meanwhile; non-trivial: the formatter changes something; oracle: a client that applies the edits",
        &["the formatters are stand-ins", "lines of a source come from the stand-in for typst"],
    )
}
