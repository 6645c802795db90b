//! C60: positions and edits.
use std::panic::{catch_unwind, AssertUnwindSafe};

use lsp_types::{Position, Range};
use tinymist_query::{to_lsp_position, to_lsp_range, to_typst_position, to_typst_range, PositionEncoding};
use typst::syntax::Source;
use vm_core::{h64, json, parallel, Ctx, Rng, Value};

use crate::model::*;

const ENCODINGS: [PositionEncoding; 2] = [PositionEncoding::Utf16, PositionEncoding::Utf8];

fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
    })
}

/// One text, all of its positions.
fn conversions(ctx: &Ctx, r: &mut Rng, t: &str) -> Option<(String, Value)> {
    let s = Source::detached(t);
    for e in ENCODINGS {
        for at in bounds(t) {
            let want = position(t, at, e).unwrap();
            let got = quiet(|| to_lsp_position(at, e, &s));
            if got != Ok(want) {
                return Some(("offset".into(), json!({"text": t, "offset": at, "encoding": format!("{e:?}"), "got": format!("{got:?}"), "want": format!("{want:?}")})));
            }
            let back = quiet(|| to_typst_position(want, e, &s));
            if back != Ok(Some(at)) {
                return Some(("position".into(), json!({"text": t, "position": format!("{want:?}"), "encoding": format!("{e:?}"), "got": format!("{back:?}"), "want": at})));
            }
            ctx.count("offsets", 1);
        }
        let l = lines(t);
        for _ in 0..12 {
            let line = match r.below(4) {
                0 => l.len() as u32 - 1,
                1 => l.len() as u32 + r.below(3) as u32,
                _ => r.below(l.len()) as u32,
            };
            let len: usize = l.get(line as usize).map_or(0, |x| t[x.0..x.1].chars().map(|c| units(c, e)).sum());
            let character = match r.below(8) {
                0 => len as u32 + 1,
                1 => len as u32 + r.below(200) as u32,
                2 => *r.pick(&[u32::MAX, i32::MAX as u32, u32::MAX - 1]),
                _ => r.below(len + 1) as u32,
            };
            let line = if r.chance(1, 60) { u32::MAX } else { line };
            let p = Position::new(line, character);
            let want = offsets(t, p, e);
            let got = quiet(|| to_typst_position(p, e, &s));
            if !matches!(got, Ok(Some(g)) if want.contains(&g)) {
                let kind = if character as usize > len { "beyond" } else { "inside" };
                return Some((kind.into(), json!({"text": t, "position": format!("{p:?}"), "encoding": format!("{e:?}"), "got": format!("{got:?}"), "want": want})));
            }
            ctx.count(if character as usize > len || line as usize >= l.len() { "out of range" } else { "in range" }, 1);
        }
        let b = bounds(t);
        let (x, y) = (*r.pick(&b), *r.pick(&b));
        let (x, y) = (x.min(y), x.max(y));
        let want = range(t, x..y, e);
        let got = quiet(|| to_lsp_range(x..y, &s, e));
        let back = quiet(|| to_typst_range(want, e, &s));
        if got != Ok(want) || back != Ok(Some(x..y)) {
            return Some(("range".into(), json!({"text": t, "range": [x, y], "got": format!("{got:?}"), "back": format!("{back:?}")})));
        }
    }
    None
}

/// A client that edits, and a server that follows as it is told, as `edit_source` does.
fn session(ctx: &Ctx, r: &mut Rng) -> Option<(String, Value)> {
    let e = *r.pick(&ENCODINGS);
    let mut client = text(r, 60);
    let mut server = Source::detached(client.as_str());
    let mut log: Vec<Value> = vec![json!(client)];
    for _ in 0..r.range(1, 12) {
        let new = text(r, 8);
        let (change, next): (Option<Range>, String) = if r.chance(1, 10) {
            (None, new.clone())
        } else {
            let b = bounds(&client);
            let (x, y) = (*r.pick(&b), *r.pick(&b));
            let (x, y) = (x.min(y), if r.chance(1, 3) { x.min(y) } else { x.max(y) });
            let mut rng = range(&client, x..y, e);
            // Clients may point beyond the end of a line, or of the text.
            let ends = |at: usize| lines(&client).iter().any(|l| l.1 == at);
            if r.chance(1, 8) && ends(y) {
                rng.end.character += r.range(1, 50) as u32;
                if x == y {
                    rng.start.character = rng.end.character;
                }
                ctx.count("edits beyond the end of a line", 1);
            } else if r.chance(1, 8) && y == client.len() {
                rng.end = Position::new(rng.end.line + 1, 0);
                if x == y {
                    rng.start = rng.end;
                }
            }
            (Some(rng), format!("{}{new}{}", &client[..x], &client[y..]))
        };
        log.push(json!({"range": format!("{change:?}"), "text": new}));
        let done = quiet(|| match change {
            Some(rng) => {
                let range = to_typst_range(rng, e, &server).expect("invalid range");
                server.edit(range, &new);
            }
            None => {
                server.replace(&new);
            }
        });
        client = next;
        ctx.count("edits", 1);
        if done.is_err() || server.text() != client {
            return Some(("edit".into(), json!({"encoding": format!("{e:?}"), "session": log, "client": client, "server": server.text(), "panic": done.err()})));
        }
    }
    None
}

/// Characters that end a line for typst, but not for clients.
const ODD: [char; 5] = ['\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}'];

pub fn c60(ctx: &Ctx) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    parallel(ctx, ctx.n(30_000, 1_000_000), 8, |i| {
        if ctx.violations() >= 3 {
            return;
        }
        let mut r = ctx.rng(i as u64);
        if i % 2 == 0 {
            let t = text(&mut r, 60);
            if let Some((s, d)) = conversions(ctx, &mut r, &t) {
                ctx.violate(s, d);
            }
            ctx.eval(h64(t.as_bytes()), !t.is_ascii());
        } else {
            let seed = r.u64();
            if let Some((s, d)) = session(ctx, &mut Rng::new(seed)) {
                ctx.violate(s, d);
            }
            ctx.eval(seed, true);
        }
    });
    for c in ODD {
        let t = format!("a{c}b\nc");
        let s = Source::detached(t.as_str());
        let at = t.len();
        if to_lsp_position(at, PositionEncoding::Utf16, &s) != position(&t, at, PositionEncoding::Utf16).unwrap() {
            ctx.violate(format!("line-end:U+{:04X}", c as u32), json!({"text": t, "offset": at}));
        }
    }
    ctx.require("offsets", 1000);
    ctx.require("out of range", 1000);
    ctx.require("edits", 1000);
    ctx.finish(
        "exploration",
        "generated texts with characters of every length in either encoding and all kinds of line ends: every offset and positions in and out of range; \
         editing sessions of a client model; non-trivial: not ASCII; oracle: a model of lines and code units, and the client's own text",
        &["lines and text of a source come from the stand-in for typst", "reversed ranges are not sent"],
    )
}
