//! C41: selection of the locale. The catalogue can be set once per process, so every case runs in a child.

use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use tinymist_l10n::{set_locale, set_translations, t_with_args, t_without_args, Arg, TranslationMapSet};
use vm_core::{json, parallel, Ctx, Rng, Value};

const LOCALES: [&str; 12] = ["en", "zh", "fr", "de", "e", "pt-br", "zh-cn", "zh-hant-tw", "ja", "nb", "en-gb", "x-1"];
const KEYS: [&str; 5] = ["k.one", "k.two", "k.three", "k", "\"K four\""];

/// Reads operations from standard input and prints one JSON line each.
pub fn child() -> i32 {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let ops: Vec<Value> = match vm_core::parse_json(&s) {
        Ok(Value::Array(a)) => a,
        _ => return 2,
    };
    let mut out = vec![];
    for o in ops {
        out.push(match o["op"].as_str().unwrap_or("") {
            "set" => {
                let m: BTreeMap<String, BTreeMap<String, String>> = o["catalogue"]
                    .as_object()
                    .unwrap()
                    .iter()
                    .map(|(l, m)| (l.clone(), m.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_owned())).collect()))
                    .collect();
                set_translations(m.into_iter().map(|(l, m)| (l, m.into_iter().collect())).collect::<TranslationMapSet>());
                json!(null)
            }
            "locale" => json!(set_locale(o["name"].as_str().unwrap()).is_some()),
            "t" => json!(t_without_args(crate::leak(o["key"].as_str().unwrap().into()), crate::leak(o["message"].as_str().unwrap().into()))),
            _ => {
                let v = o["value"].as_str().unwrap();
                json!(t_with_args(crate::leak(o["key"].as_str().unwrap().into()), crate::leak(o["message"].as_str().unwrap().into()), &[("x", Arg::from(v))]))
            }
        });
    }
    let _ = writeln!(std::io::stdout(), "{}", Value::Array(out));
    0
}

type Cat = BTreeMap<String, BTreeMap<String, String>>;

fn catalogue(r: &mut Rng, tag: &str) -> Cat {
    let mut c = Cat::new();
    for l in LOCALES {
        if r.chance(1, 3) {
            let mut m = BTreeMap::new();
            for k in KEYS {
                if r.chance(2, 3) {
                    m.insert(k.to_owned(), format!("{tag}/{l}/{k} {{x}}{}", r.text(4).replace('{', "(")));
                }
            }
            c.insert(l.into(), m);
        }
    }
    c
}

/// The catalogue's locale that a name selects; None when several prefixes would do, which is left open.
fn select<'a>(c: &'a Cat, name: &str) -> Option<Option<&'a str>> {
    let low = name.to_lowercase();
    if let Some((k, _)) = c.get_key_value(&low) {
        return Some(Some(k));
    }
    let hits: Vec<&String> = c.keys().filter(|k| low.strip_prefix(k.as_str()).is_some_and(|rest| rest.starts_with('-'))).collect();
    match hits[..] {
        [] => Some(None),
        [one] => Some(Some(one)),
        _ => None,
    }
}

fn name(r: &mut Rng) -> String {
    let mut n = match r.below(10) {
        0..=4 => LOCALES[r.below(12)].to_owned(),
        5..=6 => format!("{}-{}", LOCALES[r.below(12)], r.one(&["CN", "x", "", "Hant-TW", "é", "-"])),
        7 => format!("{}{}", LOCALES[r.below(12)], r.one(&["_CN", "x", " ", "é", "."])),
        8 => r.one(&["", "-", "zz", "C", "POSIX", "en_US.UTF-8", "İ", "ß-x", "e-n"]).to_string(),
        _ => r.text(6),
    };
    if r.chance(1, 3) {
        n = n.to_uppercase();
    }
    n
}

pub fn c41(ctx: &Ctx) -> i32 {
    parallel(ctx, ctx.n(240, 4000), 8, |k| {
        let mut r = ctx.rng(k as u64);
        let (mut cat, mut cur): (Option<Cat>, Option<String>) = (None, None);
        let (mut ops, mut want) = (vec![], vec![]);
        let when = if r.chance(1, 4) { r.below(20) } else { 0 };
        for i in 0..r.range(30, 120) {
            if i == when || (cat.is_some() && r.chance(1, 40)) {
                // Only the first catalogue counts.
                let c = catalogue(&mut r, &format!("c{i}"));
                ops.push(json!({"op": "set", "catalogue": c}));
                want.push(json!(null));
                cat = cat.or(Some(c));
                continue;
            }
            let message = r.one(&["plain", "with {x}!", "", "é {x}"]).to_string();
            let key = KEYS[r.below(5)];
            let found = cat.as_ref().zip(cur.as_ref()).and_then(|(c, l)| c[l].get(key)).cloned().unwrap_or(message.clone());
            match r.below(3) {
                0 => {
                    let n = name(&mut r);
                    let hit = match &cat {
                        None => None,
                        Some(c) => match select(c, &n) {
                            None => continue,
                            Some(h) => h,
                        },
                    };
                    ops.push(json!({"op": "locale", "name": n}));
                    want.push(json!(hit.is_some()));
                    ctx.count(if hit.is_some() { "selected" } else { "refused" }, 1);
                    if let Some(h) = hit {
                        ctx.count("by prefix", u64::from(h != n.to_lowercase()));
                        cur = Some(h.to_owned());
                    }
                }
                1 => {
                    ops.push(json!({"op": "t", "key": key, "message": message}));
                    want.push(json!(found));
                    ctx.count("translated", 1);
                }
                _ => {
                    let v = r.text(4);
                    ops.push(json!({"op": "targs", "key": key, "message": message, "value": v}));
                    want.push(json!(found.replace("{x}", &v)));
                    ctx.count("translated", 1);
                }
            }
        }
        ctx.eval(vm_core::h64(&format!("{ops:?}")), true);
        let run = || -> std::io::Result<std::process::Output> {
            let mut c = Command::new(std::env::current_exe()?).args(["child", "locale"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn()?;
            c.stdin.take().unwrap().write_all(Value::Array(ops.clone()).to_string().as_bytes())?;
            c.wait_with_output()
        };
        match run() {
            Err(e) => ctx.inconclusive(format!("cannot run a child: {e}")),
            Ok(o) => match vm_core::parse_json(&String::from_utf8_lossy(&o.stdout)) {
                Ok(Value::Array(got)) if got == want => {}
                Ok(Value::Array(got)) => {
                    let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
                    ctx.violate("locale", json!({"operation": ops[at], "expected": want[at], "got": got.get(at), "number": at, "catalogue": cat, "case": k}));
                }
                _ => ctx.violate("locale:crash", json!({"status": o.status.to_string(), "stderr": String::from_utf8_lossy(&o.stderr).chars().take(600).collect::<String>()})),
            },
        }
        ctx.sample(|| json!({"operations": ops.len(), "first": ops.iter().take(4).collect::<Vec<_>>()}));
    });
    ctx.require("translated", 2000);
    ctx.require("by prefix", 50);
    ctx.require("refused", 200);
    ctx.finish(
        "exploration",
        "one history of locale changes and translations over a generated catalogue in a process of its own; distinct by history",
        &["names that several catalogue locales prefix are not judged", "catalogue locales are in lower case"],
    )
}
