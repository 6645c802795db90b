//! C44: changing the locale while translating.

use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Barrier;
use tinymist_l10n::{set_locale, set_translations, t_with_args, t_without_args, Arg, TranslationMapSet};
use vm_core::{json, Ctx};

const LANGS: [&str; 5] = ["en", "zh", "fr", "de", "ja"];
const NAMES: [&str; 5] = ["en", "ZH-cn", "fr", "De", "ja-x"];

pub fn c44(ctx: &Ctx) -> i32 {
    let tsan = std::env::var("VM_PART").as_deref() == Ok("tsan");
    let mut set = TranslationMapSet::default();
    for l in LANGS {
        for k in 0..8 {
            set.entry(l.into()).or_default().insert(format!("k{k}"), format!("{l}:{{x}}:{l}/{k}/{l}"));
        }
    }
    // Translating while there is no catalogue yet, and setting it from several threads at once: one of them wins.
    let gate = Barrier::new(6);
    std::thread::scope(|s| {
        for t in 0..6 {
            let (set, gate) = (set.clone(), &gate);
            s.spawn(move || {
                gate.wait();
                for _ in 0..50 {
                    if t < 2 {
                        set_translations(set.clone());
                    } else if t_without_args("k0", "none") != "none" {
                        ctx.violate("switch:early", json!({}));
                    }
                }
            });
        }
    });
    let keys: Vec<&'static str> = (0..8).map(|k| crate::leak(format!("k{k}"))).collect();
    let rounds = if tsan { ctx.n(20, 200) } else { ctx.n(150, 3000) };
    for round in 0..rounds {
        if !ctx.time_left() {
            break;
        }
        let mut r = ctx.rng(round as u64);
        // One switcher with a known order of locales, or several in any order.
        let switchers = if r.chance(2, 3) { 1 } else { r.range(2, 3) };
        let (begun, done, stop) = (AtomicU64::new(0), AtomicU64::new(0), AtomicBool::new(false));
        if set_locale(NAMES[0]).is_none() {
            ctx.violate("switch:locale", json!({"name": NAMES[0]}));
        }
        let switches = if tsan { 200 } else { 3000 };
        std::thread::scope(|s| {
            let readers: Vec<_> = (0..4)
                .map(|t| {
                    let (begun, done, stop, keys) = (&begun, &done, &stop, &keys);
                    s.spawn(move || {
                        let mut r = ctx.rng((round * 16 + t) as u64 ^ 0x77_0000);
                        let mut n = 0u64;
                        while !stop.load(SeqCst) {
                            let k = r.below(8);
                            let before = done.load(SeqCst);
                            let got = if r.chance(1, 2) { t_with_args(keys[k], "none", &[("x", Arg::Int(7))]).into_owned() } else { t_without_args(keys[k], "none").replace("{x}", "7") };
                            let after = begun.load(SeqCst);
                            n += 1;
                            let lang = LANGS.iter().position(|l| got == format!("{l}:7:{l}/{k}/{l}"));
                            let ok = lang.is_some_and(|l| switchers > 1 || (before..=after).any(|seq| (seq % 5) as usize == l));
                            if !ok {
                                ctx.violate("switch:translation", json!({"got": got, "key": k, "switches done before": before, "begun after": after, "switchers": switchers}));
                                break;
                            }
                        }
                        ctx.count("translations", n);
                    })
                })
                .collect();
            let ws: Vec<_> = (0..switchers)
                .map(|_| {
                    let (begun, done) = (&begun, &done);
                    s.spawn(move || {
                        for _ in 0..switches {
                            let seq = begun.fetch_add(1, SeqCst) + 1;
                            if set_locale(NAMES[(seq % 5) as usize]).is_none() {
                                ctx.violate("switch:locale", json!({"name": NAMES[(seq % 5) as usize]}));
                            }
                            done.fetch_add(1, SeqCst);
                        }
                    })
                })
                .collect();
            for w in ws {
                let _ = w.join();
            }
            stop.store(true, SeqCst);
            for t in readers {
                let _ = t.join();
            }
        });
        ctx.count("switches", begun.load(SeqCst));
        ctx.eval(vm_core::h64(&(round, switchers)), true);
        ctx.sample(|| json!({"switchers": switchers, "switches": begun.load(SeqCst)}));
    }
    ctx.drain_panics("switching", || json!({}));
    ctx.require("translations", 500);
    ctx.require("switches", 500);
    ctx.finish("exploration", "one round of translating threads and switching threads; distinct by round", &["one process-wide locale, as designed"])
}
