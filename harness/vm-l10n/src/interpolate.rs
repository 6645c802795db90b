//! C40: interpolation of arguments.

use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use tinymist_l10n::{t_with_args, Arg, DebugL10n};
use vm_core::{guard, json, parallel, Ctx, Rng};

pub const NAMES: [&str; 10] = ["a", "ab", "value", "err", "args", "key", "root", "x_1", "object", "warning"];

enum Val {
    S(String),
    I(i64),
    F(f64),
}

impl Val {
    fn arg(&self) -> Arg<'_> {
        match self {
            Val::S(s) => s.into(),
            Val::I(i) => Arg::Int(*i),
            Val::F(f) => Arg::Float(*f),
        }
    }
    fn text(&self) -> String {
        match self {
            Val::S(s) => s.clone(),
            Val::I(i) => format!("{i}"),
            Val::F(f) => format!("{f}"),
        }
    }
}

fn val(r: &mut Rng) -> Val {
    match r.below(8) {
        0 => Val::I(*r.pick(&[0, -1, i64::MIN, i64::MAX, 42])),
        1 => Val::I(r.u64() as i64 >> r.below(64)),
        2 => Val::F(*r.pick(&[0.0, -0.5, 1e300, f64::NAN, f64::INFINITY, 3.0])),
        3 => Val::S(format!("{{{}}}", r.pick(&NAMES))),
        4 => Val::S(r.one(&["", "{", "}", "}}", "{}", "\\n", "\""]).to_string()),
        6 if r.chance(1, 200) => Val::S("long {a} ".repeat(r.range(500, 20_000))),
        _ => Val::S(r.text(12)),
    }
}

fn literal(r: &mut Rng) -> String {
    match r.below(6) {
        0 => r.one(&[".", ",", "\"", "}", " ", "é", "：", "😀", "“", "\n"]).to_string(),
        1 => String::new(),
        _ => r.text(8).replace('{', "("),
    }
}

/// Renders a message on its own terms: `{name}` is a placeholder.
pub fn model(msg: &str, args: &BTreeMap<&str, String>) -> String {
    let mut out = String::new();
    let mut rest = msg;
    while let Some(at) = rest.find('{') {
        out.push_str(&rest[..at]);
        rest = &rest[at..];
        let Some(end) = rest.find('}') else { break };
        match args.get(&rest[1..end]) {
            Some(v) => out.push_str(v),
            None => out.push_str(&rest[..=end]),
        }
        rest = &rest[end + 1..];
    }
    out + rest
}

pub fn placeholders(msg: &str) -> Vec<String> {
    let mut out = vec![];
    let mut rest = msg;
    while let Some(at) = rest.find('{') {
        rest = &rest[at + 1..];
        let Some(end) = rest.find('}') else { break };
        out.push(rest[..end].to_owned());
        rest = &rest[end + 1..];
    }
    out
}

fn fails(x: &i64) -> tinymist_std::Result<()> {
    tinymist_l10n::bail!("vm.bail", "no {thing}, only \"{count}\"!", thing = "luck".into(), count = x.debug_l10n());
}

pub fn c40(ctx: &Ctx) -> i32 {
    parallel(ctx, ctx.n(96, 2000), 8, |k| {
        let mut r = ctx.rng(k as u64);
        for _ in 0..100 {
            let vals: Vec<(&'static str, Val)> = {
                let mut names = NAMES.to_vec();
                r.shuffle(&mut names);
                let n = r.range(1, 5);
                if r.chance(1, 150) {
                    // Very many, and long ones.
                    for k in 0..r.range(20, 300) {
                        names.insert(0, crate::leak(format!("arg{k}{}", if k % 9 == 0 { "_long".repeat(60) } else { String::new() })));
                    }
                }
                let n = if names.len() > 10 { names.len() } else { n };
                names.into_iter().take(n).map(|n| (n, val(&mut r))).collect()
            };
            let (mut msg, mut want) = (String::new(), String::new());
            let (mut known, mut unknown) = (0, 0);
            let many = vals.len() > 10 || r.chance(1, 300);
            for _ in 0..if many { 600 } else { r.below(8) } {
                let l = literal(&mut r);
                msg += &l;
                want += &l;
                if r.chance(3, 4) {
                    let (n, v) = r.pick(&vals);
                    msg += &format!("{{{n}}}");
                    want += &v.text();
                    known += 1;
                } else {
                    let n = r.one(&["nope", "a b", "", "value ", "Value", "err:?", "0", "é"]);
                    msg += &format!("{{{n}}}");
                    want += &format!("{{{n}}}");
                    unknown += 1;
                }
            }
            let l = literal(&mut r);
            msg += &l;
            want += &l;
            if r.chance(1, 8) {
                let tail = format!("{{{}", r.text(5).replace(['{', '}'], "("));
                msg += &tail;
                want += &tail;
            }
            let args: Vec<(&'static str, Arg)> = vals.iter().map(|(n, v)| (*n, v.arg())).collect();
            let m = crate::leak(msg.clone());
            ctx.eval(vm_core::h64(&msg), known > 0);
            ctx.count("messages", 1);
            ctx.count("placeholders", known);
            ctx.count("unknown placeholders", unknown);
            match guard(|| t_with_args("vm.none", m, &args).into_owned()) {
                Ok(got) if got == want => {}
                Ok(got) => ctx.violate("interpolation", json!({"message": msg, "arguments": vals.iter().map(|(n, v)| (n, v.text())).collect::<Vec<_>>(), "expected": want, "got": got})),
                Err(p) => ctx.on_panic("translating", &p, json!({"message": msg})),
            }
            if tinymist_l10n::t!("vm.none", m) != msg {
                ctx.violate("interpolation:plain", json!({"message": msg}));
            }
            ctx.sample(|| json!({"message": msg, "rendered": want}));
        }
    });
    macros(ctx);
    shipped(ctx);
    ctx.require("messages", 2000);
    ctx.require("shipped renderings", 10);
    ctx.finish(
        "exploration",
        "one generated message with known, unknown and unterminated placeholders, or a shipped message in one language; distinct by message",
        &["arguments reach the function as pairs of names and values"],
    )
}

fn macros(ctx: &Ctx) {
    let s = String::from("{b}");
    let got = tinymist_l10n::t!("vm.none", "{a}-{b}:{c}.{a}!", a = (&s).into(), b = "x".into(), c = vec![1, 2].debug_l10n());
    if got != "{b}-x:[1, 2].{b}!" {
        ctx.violate("interpolation:macro", json!({"got": got}));
    }
    if !matches!(tinymist_l10n::t!("vm.none", "plain {a}"), Cow::Borrowed("plain {a}")) {
        ctx.violate("interpolation:macro", json!({"problem": "a message without arguments is altered"}));
    }
    match fails(&3) {
        Err(e) if e.to_string().contains("no luck, only \"3\"!") => {}
        o => ctx.violate("interpolation:bail", json!({"got": o.map_err(|e| e.to_string())})),
    }
}

/// The catalogue of the language server, in all of its languages.
fn shipped(ctx: &Ctx) {
    let repo = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    let file = format!("{repo}/locales/tinymist-rt.toml");
    let Ok(text) = std::fs::read_to_string(&file) else {
        ctx.inconclusive(format!("{file} cannot be read"));
        return;
    };
    let set = match guard(|| tinymist_l10n::load_translations(&text)) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => return ctx.violate("shipped:load", json!({"problem": format!("{e:#}")})),
        Err(p) => return ctx.on_panic("loading the shipped catalogue", &p, json!({})),
    };
    tinymist_l10n::set_translations(set);
    let mut by_key: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new();
    for (k, l, v) in crate::read(&text) {
        let Ok(v) = vm_core::parse_json(&v).and_then(|v| v.as_str().map(str::to_owned).ok_or_else(|| "not a string".into())) else {
            ctx.violate("shipped:value", json!({"key": k, "language": l, "value": v}));
            continue;
        };
        by_key.entry(k).or_default().insert(l, v);
    }
    let langs: BTreeSet<String> = by_key.values().flat_map(|m| m.keys().cloned()).collect();
    for lang in &langs {
        if tinymist_l10n::set_locale(lang).is_none() {
            ctx.violate("shipped:locale", json!({"language": lang}));
            continue;
        }
        for (key, m) in &by_key {
            let Some(en) = m.get("en") else {
                ctx.violate("shipped:english", json!({"key": key}));
                continue;
            };
            let msg = m.get(lang).unwrap_or(en);
            let names: BTreeSet<String> = placeholders(en).into_iter().collect();
            let theirs: BTreeSet<String> = placeholders(msg).into_iter().collect();
            let odd = names.iter().any(|n| n.is_empty() || !n.chars().all(|c| c.is_alphanumeric() || c == '_'));
            if names != theirs || odd {
                ctx.violate("shipped:placeholders", json!({"key": key, "language": lang, "english": names, "here": theirs}));
                continue;
            }
            let vals: BTreeMap<&str, String> = names.iter().map(|n| (n.as_str(), format!("<{n}>"))).collect();
            let args: Vec<(&'static str, Arg)> = vals.iter().map(|(n, v)| (crate::leak(n.to_string()), v.into())).collect();
            let want = model(msg, &vals);
            let got = t_with_args(crate::leak(key.clone()), crate::leak(en.clone()), &args);
            ctx.count("shipped renderings", 1);
            ctx.eval(vm_core::h64(&(key, lang)), !names.is_empty());
            if got != want {
                ctx.violate("shipped:rendering", json!({"key": key, "language": lang, "expected": want, "got": got}));
            }
        }
    }
}
