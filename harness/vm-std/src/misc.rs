//! C37, C38: errors and value wrappers.

use serde::{Deserialize, Serialize};
use serde_with::serde_as;
use std::borrow::Cow;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock};
use tinymist_std::cow_mut::CowMut;
use tinymist_std::error::prelude::*;
use tinymist_std::error::{DiagMessage, DiagSeverity, ErrKindExt, IgnoreLogging};
use tinymist_std::time::{Time, ToUtcDateTime};
use tinymist_std::{ArcInto, AsCowBytes, ErrKind, Error, TakeAs};
use vm_core::{guard, json, parallel, Ctx, Rng};

// ---------------------------------------------------------------- C37

const LOCS: [&str; 4] = ["crate.module.place", "x", "a b: c", "读取"];
const KEYS: [&str; 4] = ["path", "reason", "名", "k e y"];

fn args(r: &mut Rng) -> Vec<(&'static str, String)> {
    (0..r.below(4)).map(|_| (*r.pick(&KEYS), r.text(10))).collect()
}

struct Logs;
fn logs() -> &'static Mutex<Vec<(std::thread::ThreadId, log::Level, String)>> {
    static L: OnceLock<Mutex<Vec<(std::thread::ThreadId, log::Level, String)>>> = OnceLock::new();
    L.get_or_init(Default::default)
}
impl log::Log for Logs {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        logs().lock().unwrap().push((std::thread::current().id(), r.level(), r.args().to_string()));
    }
    fn flush(&self) {}
}
fn my_logs() -> Vec<(log::Level, String)> {
    let me = std::thread::current().id();
    let mut l = logs().lock().unwrap();
    let mine = l.iter().filter(|x| x.0 == me).map(|x| (x.1, x.2.clone())).collect();
    l.retain(|x| x.0 != me);
    mine
}

fn bails(m: &str) -> tinymist_std::Result<u32> {
    tinymist_std::bail!("bailed with {m}")
}

pub fn c37(ctx: &Ctx) -> i32 {
    let _ = log::set_logger(&Logs);
    log::set_max_level(log::LevelFilter::Trace);
    parallel(ctx, ctx.n(64, 1500), 8, |k| {
        let mut r = ctx.rng(k as u64);
        for _ in 0..100 {
            let loc = *r.pick(&LOCS);
            let msg = format!("m{}", r.text(12));
            let a = args(&mut r);
            let boxed = (!a.is_empty() || r.chance(1, 2)).then(|| a.clone().into_boxed_slice());
            let inner = Error::new("inner.place", ErrKind::Msg("the inner cause".into()), None);
            let kind = r.below(12);
            let no_args = || Vec::<(&'static str, String)>::new();
            // (error, expected location, expected message parts, expected arguments)
            let (e, l, parts, want): (Error, &str, Vec<String>, Vec<(&'static str, String)>) = match kind {
                0 => (Error::new(loc, ErrKind::Msg(msg.as_str().into()), boxed), loc, vec![msg.clone()], a.clone()),
                1 => (Error::new(loc, ErrKind::None, boxed), loc, vec![], a.clone()),
                2 => (Error::new(loc, ErrKind::Inner(inner.clone()), boxed), loc, vec!["inner.place".into(), "the inner cause".into()], a.clone()),
                3 => {
                    let d = DiagMessage { package: "p".into(), path: "f".into(), message: msg.as_str().into(), severity: DiagSeverity::Warning, range: None };
                    (Error::new(loc, ErrKind::Diag(Box::new(d)), boxed), loc, vec![msg.clone()], a.clone())
                }
                4 => (Err::<(), _>(msg.clone()).context(loc).unwrap_err(), loc, vec![msg.clone()], no_args()),
                5 => (Err::<(), _>(msg.as_str()).with_context(loc, || boxed).unwrap_err(), loc, vec![msg.clone()], a.clone()),
                6 => (None::<()>.with_context(loc, || boxed).unwrap_err(), loc, vec![], a.clone()),
                7 => (Err::<(), _>(std::io::Error::other(msg.clone())).with_context_ut(loc, || boxed).unwrap_err(), loc, vec![msg.clone()], a.clone()),
                8 => (map_string_err_with_args(loc, a.clone())(&msg), loc, vec![msg.clone()], a.clone()),
                9 => (wrap_err_with_args(loc, a.clone())(inner.clone()), loc, vec!["inner.place".into(), "the inner cause".into()], a.clone()),
                10 => (map_err_with_args(loc, a.clone())(msg.clone()), loc, vec![msg.clone()], a.clone()),
                _ => {
                    let v = r.u64();
                    (error_once!("once.loc", number: v, text: msg), "once.loc", vec![], vec![("number", v.to_string()), ("text", msg.clone())])
                }
            };
            let mut bad: Vec<String> = vec![];
            ctx.eval(vm_core::h64(&(kind, loc, &msg, &a)), true);
            ctx.count("errors", 1);
            if e.loc() != l {
                bad.push(format!("location {:?}", e.loc()));
            }
            if e.arguments() != want {
                bad.push(format!("arguments {:?}", e.arguments()));
            }
            for (how, s) in [("display", e.to_string()), ("debug", format!("{e:?}")), ("clone", e.clone().to_string()), ("source-erased", (Box::new(e.clone()) as Box<dyn std::error::Error>).to_string())] {
                let mut at = 0;
                for p in std::iter::once(&l.to_string()).chain(&parts) {
                    match s[at..].find(p.as_str()) {
                        Some(i) => at += i + p.len(),
                        None => bad.push(format!("{how} lacks {p:?}: {s:?}")),
                    }
                }
                for (k, v) in &want {
                    match s[at..].find(&format!("({k:?}, {v:?})")) {
                        Some(i) => at += i,
                        None => bad.push(format!("{how} lacks the argument {k}={v:?}: {s:?}")),
                    }
                }
            }
            let kind_ok = match (e.kind(), kind) {
                (ErrKind::None, 1 | 6 | 11) | (ErrKind::Inner(_), 2 | 9) => true,
                (ErrKind::Diag(d), 3) => d.message == msg.as_str(),
                (ErrKind::Msg(m), 0 | 4 | 5 | 7 | 8 | 10) => m.as_str() == msg,
                _ => false,
            };
            if !kind_ok {
                bad.push(format!("kind {:?}", e.kind()));
            }
            // Success passes through, and nothing is computed for it.
            let lazy = AtomicUsize::new(0);
            let n = r.u64();
            let ok = Ok::<u64, String>(n).context(loc).ok() == Some(n)
                && Some(n).context(loc).ok() == Some(n)
                && Ok::<u64, String>(n).with_context(loc, || { lazy.fetch_add(1, SeqCst); None }).ok() == Some(n)
                && Some(n).with_context(loc, || { lazy.fetch_add(1, SeqCst); None }).ok() == Some(n)
                && Ok::<u64, String>(n).context_ut(loc).ok() == Some(n)
                && Ok::<u64, String>(n).with_context_ut(loc, || { lazy.fetch_add(1, SeqCst); None }).ok() == Some(n);
            if !ok || lazy.load(SeqCst) != 0 {
                bad.push("success does not pass through untouched".into());
            }
            // Every convertible error keeps its text.
            let kinds = [msg.clone().to_error_kind(), msg.as_str().to_error_kind(), (&msg).to_error_kind(), std::io::Error::other(msg.clone()).to_error_kind(), anyhow::anyhow!("{msg}").to_error_kind(), (&msg as &dyn std::fmt::Display).to_error_kind()];
            if kinds.iter().any(|k| !matches!(k, ErrKind::Msg(m) if m.as_str() == msg)) {
                bad.push("a conversion alters the message".into());
            }
            if !matches!(e.clone().to_error_kind(), ErrKind::Msg(m) if m.as_str() == e.to_string()) {
                bad.push("an error as a kind alters the message".into());
            }
            let from: Error = anyhow::anyhow!("{msg}").into();
            if !from.to_string().contains(&msg) {
                bad.push("from anyhow alters the message".into());
            }
            match bails(&msg) {
                Err(e) if e.to_string().contains(&format!("bailed with {msg}")) && e.loc().contains("misc.rs") => {}
                o => bad.push(format!("bail: {o:?}")),
            }
            // Logged once, as an error, with both texts; silent on success.
            my_logs();
            let some = Ok::<u64, Error>(n).log_error("ctx");
            let none = Err::<u64, _>(e.clone()).log_error(&msg);
            let none2 = Err::<u64, _>(e.clone()).log_error_with(|| format!("lazy {msg}"));
            let some2 = Ok::<u64, Error>(n).log_error_with(|| { lazy.fetch_add(1, SeqCst); String::new() });
            let l = my_logs();
            let want_l = vec![(log::Level::Error, format!("{msg}: {e}")), (log::Level::Error, format!("lazy {msg}: {e}"))];
            if some != Some(n) || some2 != Some(n) || none.is_some() || none2.is_some() || lazy.load(SeqCst) != 0 || l != want_l {
                bad.push(format!("logging: {l:?}"));
            }
            if !bad.is_empty() {
                bad.truncate(4);
                ctx.violate("error", json!({"kind": kind, "location": loc, "message": msg, "arguments": want, "problems": bad}));
            }
            ctx.sample(|| json!({"kind": kind, "rendered": e.to_string()}));
        }
    });
    // Diagnostics keep their wire form.
    for (s, n, name) in [(DiagSeverity::Error, 1, "error"), (DiagSeverity::Warning, 2, "warning"), (DiagSeverity::Information, 3, "information"), (DiagSeverity::Hint, 4, "hint")] {
        ctx.count("severities", 1);
        let v = serde_json::to_value(&s).unwrap_or_default();
        let back = serde_json::from_value::<DiagSeverity>(v.clone()).map(|s| s.to_string()).unwrap_or_default();
        if v != json!(n) || s.to_string() != name || back != name {
            ctx.violate("error:severity", json!({"severity": name, "as": v, "back": back}));
        }
    }
    for bad in [json!(0), json!(5), json!(-1), json!("1"), json!(null)] {
        if serde_json::from_value::<DiagSeverity>(bad.clone()).is_ok() {
            ctx.violate("error:severity", json!({"accepted": bad}));
        }
    }
    ctx.require("errors", 2000);
    ctx.finish(
        "exploration",
        "one error built by one of twelve ways, rendered, converted and logged; distinct by location, message and arguments",
        &["errors with an empty location are not claimed"],
    )
}

// ---------------------------------------------------------------- C38

#[serde_as]
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Payload<'a> {
    #[serde_as(as = "AsCowBytes")]
    data: Cow<'a, [u8]>,
    other: u32,
}

#[derive(Debug)]
struct Counted(u64, Arc<AtomicUsize>);
impl Clone for Counted {
    fn clone(&self) -> Self {
        self.1.fetch_add(1, SeqCst);
        Counted(self.0, self.1.clone())
    }
}

fn b64(data: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                s.push(T[(n >> (18 - 6 * k)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

pub fn c38(ctx: &Ctx) -> i32 {
    parallel(ctx, ctx.n(64, 1500), 8, |k| {
        let mut r = ctx.rng(k as u64);
        for _ in 0..100 {
            let mut bad: Vec<String> = vec![];
            let len = [0, 1, 2, 3, 4, 5, 63, 64, 65, 1000][r.below(10)];
            let data: Vec<u8> = (0..len).map(|_| r.u64() as u8).collect();
            ctx.eval(vm_core::h64(&data[..]), true);
            ctx.count("payloads", 1);
            let p = Payload { data: if r.chance(1, 2) { Cow::Borrowed(&data) } else { Cow::Owned(data.clone()) }, other: r.u64() as u32 };
            let v = serde_json::to_value(&p).unwrap_or_default();
            if v["data"] != json!(b64(&data)) {
                bad.push(format!("encoded as {}", v["data"]));
            }
            match serde_json::from_value::<Payload>(v.clone()) {
                Ok(q) if q == p => {}
                o => bad.push(format!("read back as {o:?}")),
            }
            // Damaged encodings are refused or decode to something that encodes back; never a panic.
            let mut t: Vec<char> = b64(&data).chars().collect();
            match r.below(4) {
                0 => t.push(r.ch()),
                1 => {
                    t.pop();
                }
                2 if !t.is_empty() => {
                    let at = r.below(t.len());
                    t[at] = r.ch();
                }
                _ => t = r.text(12).chars().collect(),
            }
            let t: String = t.into_iter().collect();
            match guard(|| serde_json::from_value::<Payload>(json!({"data": t, "other": 1})).ok().map(|p| p.data.into_owned())) {
                Ok(Some(d)) if b64(&d).trim_end_matches('=') != t.trim_end_matches('=') => bad.push(format!("{t:?} was accepted as {d:?}")),
                Ok(_) => {}
                Err(p) => ctx.on_panic("decoding bytes", &p, json!({"text": t})),
            }
            // take: moves the only reference, clones otherwise.
            let clones = Arc::new(AtomicUsize::new(0));
            let n = r.u64();
            let a = Arc::new(Counted(n, clones.clone()));
            let shared = r.chance(1, 2);
            let keep = shared.then(|| a.clone());
            let weak = Arc::downgrade(&a);
            let t: Counted = a.take();
            if t.0 != n || clones.load(SeqCst) != usize::from(shared) || keep.is_some_and(|k| k.0 != n) || weak.upgrade().is_some() != false {
                bad.push("take".into());
            }
            // CowMut writes through a borrow and owns otherwise.
            let mut x = vec![1u8];
            {
                let mut c = CowMut::Borrowed(&mut x);
                c.extend(&data);
                if c.len() != data.len() + 1 {
                    bad.push("CowMut".into());
                }
            }
            let mut c: CowMut<Vec<u8>> = CowMut::default();
            c.push(9);
            let mut o = CowMut::Owned(x.clone());
            o.push(7);
            if x.len() != data.len() + 1 || x[1..] != data[..] || *c != [9] || o.len() != x.len() + 1 || o[..x.len()] != x[..] {
                bad.push("CowMut".into());
            }
            if !bad.is_empty() {
                ctx.violate("wrappers", json!({"data": data, "problems": bad}));
            }
            ctx.sample(|| json!({"bytes": data.len(), "json": v["data"]}));
            // time
            let secs = match r.below(5) {
                0 => r.u64() as i64,
                1 => r.below(4_000_000_000) as i64,
                2 => -(r.below(4_000_000_000) as i64),
                3 => *r.pick(&[0, -1, 1, 951_782_400, 253_402_300_799, 253_402_300_800, -377_705_116_800, -377_705_116_801, i64::MAX, i64::MIN]),
                _ => (r.u64() >> r.below(40)) as i64,
            };
            ctx.count("timestamps", 1);
            let nanos = r.below(1_000_000_000) as u32;
            let case = || json!({"seconds": secs, "nanoseconds": nanos});
            // Years -9999 to 9999.
            let fits = (-377_705_116_800..=253_402_300_799).contains(&secs);
            match guard(|| secs.to_utc_datetime()) {
                Ok(Some(d)) if fits && d.unix_timestamp() == secs && civil(secs) == (d.year() as i64, d.month() as u8, d.day(), d.hour(), d.minute(), d.second()) => {}
                Ok(None) if !fits => {}
                Ok(o) => ctx.violate("time:i64", json!({"case": case(), "result": o.map(|d| d.to_string())})),
                Err(p) => ctx.on_panic("converting a timestamp", &p, case()),
            }
            let d = std::time::Duration::new(secs.unsigned_abs(), nanos);
            let t = if secs >= 0 { Time::UNIX_EPOCH.checked_add(d) } else { Time::UNIX_EPOCH.checked_sub(d) };
            if let Some(t) = t {
                let total = if secs >= 0 { secs as i128 * 1_000_000_000 + nanos as i128 } else { -(secs.unsigned_abs() as i128 * 1_000_000_000 + nanos as i128) };
                let fits = (-377_705_116_800i128 * 1_000_000_000..=253_402_300_799i128 * 1_000_000_000 + 999_999_999).contains(&total);
                match guard(|| t.to_utc_datetime()) {
                    Ok(Some(d)) if fits && d.unix_timestamp_nanos() == total => {}
                    Ok(None) if !fits => {}
                    Ok(o) => ctx.violate("time:system", json!({"case": case(), "fits": fits, "result": o.map(|d| d.to_string())})),
                    Err(p) => ctx.on_panic("converting a system time", &p, case()),
                }
            }
        }
    });
    let (a, n, b) = (Time::now(), tinymist_std::time::now(), Time::now());
    let u = tinymist_std::time::utc_now();
    let now = a.duration_since(Time::UNIX_EPOCH).map(|d| d.as_secs() as i64).unwrap_or(0);
    if n < a || n > b || (u.unix_timestamp() - now).abs() > 5 {
        ctx.violate("time:now", json!({"utc": u.to_string()}));
    }
    let s: Arc<String> = Arc::new("q".into());
    let p: Arc<String> = s.clone().arc_into();
    if !Arc::ptr_eq(&s, &p) {
        ctx.violate("wrappers:arc", json!({}));
    }
    ctx.require("payloads", 2000);
    ctx.require("timestamps", 2000);
    ctx.finish("exploration", "one payload and one timestamp; distinct by payload", &[])
}

/// Civil date of a Unix time (Howard Hinnant's algorithm).
fn civil(secs: i64) -> (i64, u8, u8, u8, u8, u8) {
    let (days, s) = (secs.div_euclid(86400), secs.rem_euclid(86400));
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + i64::from(m <= 2), m as u8, d as u8, (s / 3600) as u8, (s / 60 % 60) as u8, (s % 60) as u8)
}
