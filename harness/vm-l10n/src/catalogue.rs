//! C42: catalogues as text.

use std::collections::{BTreeMap, BTreeSet};
use tinymist_l10n::{deserialize, load_translations, serialize_translations, update_disk_translations, update_translations, TranslationMapSet};
use vm_core::{guard, json, parallel, Ctx, Rng, Scratch, Value};

type Cat = BTreeMap<String, BTreeMap<String, String>>;

fn raw(text: &str) -> String {
    Value::String(text.to_owned()).to_string()
}

pub fn key(r: &mut Rng) -> String {
    match r.below(5) {
        4 => raw(&mixture(r)),
        0 => raw(&r.text(8).replace(']', "]]")),
        1 => raw(r.one(&["a = b", "# no comment", "[x]", "ends ]", "Show the \"path\"", "é 中"])),
        _ => {
            let n = r.range(1, 3);
            let v: Vec<String> = (0..n).map(|_| r.one(&["tinymist", "a-b", "codeAction", "x1", "more", "badStatus"]).to_string()).collect();
            format!("{}.k{}", v.join("."), r.below(40))
        }
    }
}

/// Text made of everything that means something somewhere: to the catalogue, to TOML, to JSON, to Rust.
pub fn mixture(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(8) {
        s += r.one(&[
            "a", "word", "file", "5", " ", " ", "  ", "=", " = ", "#", " # ", " #", "[", "]", "[k]", "{", "}", "{x}", "\"", "\\", "\n", "\r\n", "\t", "'", "`",
            ",", ":", ";", "//", "/*", "en", "en = ", "\u{a0}", "\u{85}", "\u{2028}", "\u{feff}", "\u{0}", "\u{1b}", "\u{7f}", "é", "中文", "😀", "\\u0041", "null",
        ]);
    }
    s
}

pub fn value(r: &mut Rng) -> String {
    match r.below(10) {
        6..=9 => raw(&mixture(r)),
        0 => raw(r.one(&["", " = ", "# x", "[y]", "line\nbreak", "tab\t", "quote \" end", "back\\slash", "{x}", "\u{85}\u{2028}"])),
        1 => raw(&(r.text(10) + " ")),
        _ => raw(&r.text(20)),
    }
}

fn cat(r: &mut Rng) -> Cat {
    let mut c = Cat::new();
    if r.chance(1, 400) {
        // A large one: many keys, many languages, long texts.
        for k in 0..*r.pick(&[300, 1_100, 3_000, 12_000]) {
            let mut m = BTreeMap::from([("en".to_owned(), value(r))]);
            for l in 0..if k % 50 == 0 && k < 3_000 { 120 } else { 3 } {
                m.insert(format!("l{l:03}"), if (k + l) % 501 == 0 { raw(&"long = text # ".repeat(9_000)) } else { value(r) });
            }
            c.insert(format!("large.k{k:05}"), m);
        }
    }
    for _ in 0..r.below(12) {
        let mut m = BTreeMap::from([("en".to_owned(), value(r))]);
        for l in ["zh", "fr", "zh-cn", "aa", "en-gb", "zh-hk", "zh-tw", "enx", "e", "sr-latn-rs"] {
            if r.chance(1, 2) {
                m.insert(l.into(), value(r));
            }
        }
        c.insert(key(r), m);
    }
    c
}

fn real(c: &Cat, r: &mut Rng) -> TranslationMapSet {
    let mut v: Vec<_> = c.iter().collect();
    r.shuffle(&mut v);
    v.into_iter().map(|(k, m)| (k.clone(), m.iter().map(|(a, b)| (a.clone(), b.clone())).collect())).collect()
}

fn plain(s: &TranslationMapSet) -> Cat {
    s.iter().map(|(k, m)| (k.clone(), m.iter().map(|(a, b)| (a.clone(), b.clone())).collect())).collect()
}

fn transposed(c: &Cat) -> Cat {
    let mut t = Cat::new();
    for (k, m) in c {
        for (l, v) in m {
            t.entry(l.clone()).or_default().insert(k.clone(), v.clone());
        }
    }
    t
}

/// Checks the written form: known comments only, sections in order, English first, languages in order.
fn canonical(text: &str, c: &Cat) -> Result<(), String> {
    let mut want = vec![];
    for (k, m) in c {
        want.push((k.clone(), "en".to_owned(), m["en"].clone()));
        want.extend(m.iter().filter(|(l, _)| *l != "en").map(|(l, v)| (k.clone(), l.clone(), v.clone())));
    }
    let got = crate::read(text);
    if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("entry {at}: {:?}, expected {:?}", got.get(at), want.get(at)));
    }
    if !text.ends_with('\n') || text.contains('\r') {
        return Err("line ends".into());
    }
    Ok(())
}

/// The same catalogue as a person might write it.
fn roughen(text: &str, r: &mut Rng) -> String {
    let mut out = String::new();
    for l in text.split('\n') {
        if r.chance(1, 6) {
            out += r.one(&["\n", "# [comment]\n", "   # a = b\n", "  \t \n", "#\n"]);
        }
        if r.chance(1, 4) {
            out += r.one(&[" ", "\t", "    "]);
        }
        match l.split_once(" = ") {
            Some((a, b)) if !l.starts_with('[') && !l.starts_with('#') && r.chance(1, 2) => {
                out += a;
                out += r.one(&["=", " =", "= ", "  =\t"]);
                out += b;
            }
            _ => out += l,
        }
        if r.chance(1, 4) {
            out += r.one(&[" ", "\r", "\t "]);
        }
        out += "\n";
    }
    out
}

pub fn c42(ctx: &Ctx) -> i32 {
    parallel(ctx, ctx.n(96, 2000), 8, |k| {
        let mut r = ctx.rng(k as u64);
        let scratch = Scratch::new("catalogue");
        for case in 0..12 {
            let c = cat(&mut r);
            ctx.eval(vm_core::h64(&c), !c.is_empty());
            ctx.count("catalogues", 1);
            let mut bad: Vec<String> = vec![];
            let res = guard(|| {
                let text = serialize_translations(real(&c, &mut r));
                if text != serialize_translations(real(&c, &mut r)) {
                    bad.push("the written form depends on the insertion order".into());
                }
                if let Err(e) = canonical(&text, &c) {
                    bad.push(format!("written form: {e}"));
                }
                let rough = roughen(&text, &mut r);
                for t in [&text, &rough] {
                    match deserialize(t, true) {
                        Ok(s) if plain(&s) == c => {}
                        o => bad.push(format!("read by key as {:?}, expected {c:?}", o.map(|s| plain(&s)))),
                    }
                    match deserialize(t, false) {
                        Ok(s) if plain(&s) == transposed(&c) => {}
                        o => bad.push(format!("read by language as {:?}", o.map(|s| plain(&s)))),
                    }
                    let mut decoded = transposed(&c);
                    for m in decoded.values_mut() {
                        for v in m.values_mut() {
                            *v = vm_core::parse_json(v).ok().and_then(|v| v.as_str().map(str::to_owned)).unwrap_or_default();
                        }
                    }
                    match load_translations(t) {
                        Ok(s) if plain(&s) == decoded => {}
                        o => bad.push(format!("loaded as {:?}", o.map(|s| plain(&s)))),
                    }
                }
                // Updating keeps translations of used keys, drops the others, and sets English.
                let mut used: BTreeMap<String, String> = BTreeMap::new();
                for k in c.keys() {
                    if r.chance(2, 3) {
                        used.insert(k.clone(), if r.chance(1, 2) { c[k]["en"].clone() } else { value(&mut r) });
                    }
                }
                for _ in 0..r.below(4) {
                    used.insert(key(&mut r), value(&mut r));
                }
                let mut want = Cat::new();
                for (k, v) in &used {
                    let mut m = c.get(k).cloned().unwrap_or_default();
                    m.insert("en".into(), v.clone());
                    want.insert(k.clone(), m);
                }
                let mut kv: Vec<(String, String)> = used.clone().into_iter().collect();
                r.shuffle(&mut kv);
                let mut s = real(&c, &mut r);
                update_translations(kv.clone(), &mut s);
                if plain(&s) != want {
                    bad.push(format!("updated to {:?}, expected {want:?}", plain(&s)));
                }
                let f = scratch.path().join(format!("{case}.toml"));
                let fresh = r.chance(1, 5);
                if fresh {
                    want = used.iter().map(|(k, v)| (k.clone(), BTreeMap::from([("en".to_owned(), v.clone())]))).collect();
                } else {
                    std::fs::write(&f, if r.chance(1, 2) { &text } else { &rough }).unwrap();
                }
                let first = update_disk_translations(kv.clone(), &f).map(|_| std::fs::read_to_string(&f).unwrap_or_default());
                match &first {
                    Ok(t) => {
                        if let Err(e) = canonical(t, &want) {
                            bad.push(format!("the file after an update: {e}"));
                        }
                    }
                    Err(e) => bad.push(format!("updating the file: {e:#}")),
                }
                r.shuffle(&mut kv);
                let again = update_disk_translations(kv.clone(), &f).map(|_| std::fs::read_to_string(&f).unwrap_or_default());
                if again.ok() != first.ok() {
                    bad.push("updating twice differs".into());
                }
                ctx.count("updates", 2);
                // Success means that the file was written.
                let nowhere = scratch.path().join("missing/dir/c.toml");
                if update_disk_translations(kv.clone(), &nowhere).is_ok() || nowhere.exists() {
                    bad.push("an update that could not be written was reported as done".into());
                }
                // A file that cannot be understood is refused and left alone.
                let broken = text.clone() + r.one(&["\nen \"no equal sign\"\n", "\nword\n", "\n[unclosed\nen = \"x\"\n"]);
                std::fs::write(&f, &broken).unwrap();
                if update_disk_translations(kv, &f).is_ok() || std::fs::read_to_string(&f).ok().as_ref() != Some(&broken) {
                    bad.push("a broken file was accepted or changed".into());
                }
                ctx.count("broken files", 1);
            });
            if let Err(p) = res {
                ctx.on_panic("handling a catalogue", &p, json!({"catalogue": c}));
            }
            if !bad.is_empty() {
                bad.iter_mut().for_each(|b| *b = b.chars().take(600).collect());
                ctx.violate("catalogue", json!({"catalogue": c, "problems": bad}));
            }
            ctx.sample(|| json!({"keys": c.keys().take(3).collect::<Vec<_>>(), "entries": c.values().map(|m| m.len()).sum::<usize>()}));
            // Arbitrary text.
            let lines: Vec<String> = (0..r.below(8))
                .map(|_| match r.below(9) {
                    0 => r.text(10).replace('\n', " "),
                    1 => "[".into(),
                    2 => "]".into(),
                    3 => "=".into(),
                    4 => "[é".into(),
                    5 => " [ a ] ".into(),
                    6 => "en=".into(),
                    7 => "x = \"y\"".into(),
                    _ => "[中]".into(),
                })
                .collect();
            let text = lines.join("\n");
            let meaningful: BTreeSet<&str> = text.split('\n').map(str::trim).filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
            let ok = meaningful.iter().all(|l| if l.starts_with('[') { l.ends_with(']') } else { l.contains('=') });
            ctx.count("foreign texts", 1);
            for by_key in [true, false] {
                match guard(|| deserialize(&text, by_key).is_ok()) {
                    Ok(g) if g == ok => {}
                    Ok(g) => ctx.violate("catalogue:foreign", json!({"text": text, "accepted": g})),
                    Err(p) => ctx.on_panic("reading a catalogue", &p, json!({"text": text})),
                }
            }
        }
    });
    ctx.require("catalogues", 500);
    ctx.require("updates", 500);
    ctx.finish(
        "exploration",
        "one generated catalogue written, read in both orders, roughened by comments and spacing, updated in memory and on disk, and one foreign text; distinct by catalogue",
        &["values are JSON strings on one line, as the writer produces them"],
    )
}
