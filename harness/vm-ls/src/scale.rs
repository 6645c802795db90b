//! Sessions whose size or duration is far from that of the random ones: tens of thousands of requests, server requests,
//! events and notes pending at once, a client which does not read for many seconds, answers that take as long.

use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::Ordering;
use std::sync::Mutex;
use std::time::{Duration, Instant};

use vm_core::{h64, json, Ctx, Rng, Value};

use crate::framing::Proto;
use crate::server::{EvA, EvB, Rec};
use crate::session::{start_with, Live, Start};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// Responses: one per request, with its handler's answer.
    Answers,
    /// Handlers: once each, in the order of sending.
    Order,
    /// Continuations of the server's own requests.
    Calls,
    Events,
    Notes,
    /// Whether anything is pending.
    Pending,
}
use Kind::*;

#[derive(Clone, Debug)]
pub struct Big {
    pub p: Proto,
    pub requests: usize,
    pub calls: usize,
    pub notes: usize,
    pub events: u64,
    /// How long the client does not read.
    pub stall: Duration,
    /// How long answers stay out, and how long nobody says anything afterwards.
    pub slow: Duration,
}

const LIMIT: Duration = Duration::from_secs(120);

struct Found(Kind, &'static str, Value);

fn id_of(r: &mut Rng, p: Proto, k: usize) -> Value {
    match (p, r.below(4)) {
        (Proto::Dap, _) => json!(k as i64 + 1),
        // The digits of the neighbour's number.
        (_, 0) => json!((k as i64 - 1).to_string()),
        (_, 1) => json!(format!("id/{k}")),
        _ => json!(k as i64),
    }
}

fn request(p: Proto, id: &Value, method: &str, params: Value) -> Value {
    match p {
        Proto::Lsp => json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}),
        Proto::Dap => json!({"type": "request", "seq": id, "command": method, "arguments": params}),
    }
}
fn is_response(p: Proto, v: &Value) -> bool {
    match p {
        Proto::Lsp => v.get("method").is_none() && v.get("id").is_some(),
        Proto::Dap => v["type"] == "response",
    }
}
fn is_note(p: Proto, v: &Value) -> bool {
    match p {
        Proto::Lsp => v["method"].as_str().is_some_and(|m| m.starts_with("vm/note")),
        Proto::Dap => v["type"] == "event",
    }
}

/// Waits until so many frames of the given shape arrived.
fn until(live: &Live, n: usize, f: impl Fn(&Value) -> bool) -> bool {
    let seen = std::cell::Cell::new((0usize, 0usize));
    live.out.wait(LIMIT, |o| {
        let (mut at, mut k) = seen.get();
        while at < o.frames.len() {
            k += f(&o.frames[at].0) as usize;
            at += 1;
        }
        seen.set((at, k));
        k >= n
    })
}

fn run(ctx: &Ctx, r: &mut Rng, b: &Big) -> Vec<Found> {
    let mut found = vec![];
    let p = b.p;
    let rt: &'static tokio::runtime::Runtime = Box::leak(Box::new(
        tokio::runtime::Builder::new_multi_thread().worker_threads(4).thread_name("vm-tokio-big").enable_time().build().expect("runtime"),
    ));
    let opts = Start { out_cap: (!b.stall.is_zero()).then_some(4096), handle: Some(rt.handle().clone()) };
    let mut live = start_with(p, r, opts);
    let c = live.client.clone();
    macro_rules! must {
        ($cond:expr, $kind:expr, $what:expr, $detail:expr) => {
            if !$cond {
                found.push(Found($kind, $what, $detail));
                live.obs.release_all();
                live.hold(false);
                return found;
            }
        };
    }
    live.send(&request(p, &json!(100_000_000), "initialize", json!({"token": "init"})));
    must!(until(&live, 1, |v| is_response(p, v)), Answers, "large:initialize", Value::Null);
    if p == Proto::Lsp {
        live.send(&json!({"jsonrpc": "2.0", "method": "initialized", "params": {"token": "initialized"}}));
    }
    if !b.stall.is_zero() {
        live.hold(true);
    }
    let began = Instant::now();
    // Events, from several threads.
    let senders: Vec<_> = (0..3u64)
        .map(|s| {
            let (c, n) = (c.clone(), b.events);
            std::thread::spawn(move || {
                for k in 0..n {
                    if (k / 7) % 2 == 0 {
                        c.send_event(EvA(s, k));
                    } else {
                        c.send_event(EvB(s, k));
                    }
                }
            })
        })
        .collect();
    let teller = {
        let (c, n, dap) = (c.to_typed::<crate::server::S>(), b.notes as u64, p == Proto::Dap);
        std::thread::spawn(move || {
            for k in 0..n {
                crate::server::tell(&c, dap, k % 3 == 0, json!({"from": "teller", "n": k, "body": "x".repeat((k % 50) as usize)}));
            }
        })
    };
    // Requests: most of them stay out until their gate opens.
    let mut want: HashMap<String, (String, bool)> = HashMap::new();
    let mut order: Vec<String> = vec![];
    let (mut gated, mut at_once) = (vec![], 1usize);
    let ask = |live: &mut Live, order: &mut Vec<String>| {
        if b.calls > 0 {
            let toks: Vec<String> = (0..b.calls).map(|n| format!("c{n}")).collect();
            live.send(&json!({"jsonrpc": "2.0", "method": "test/call", "params": {"token": "calls", "calls": toks}}));
            order.push("calls".into());
        }
    };
    for k in 0..b.requests {
        let id = id_of(r, p, k);
        let t = format!("t{k}");
        let mut a = json!({"token": t, "echo": k});
        let mut method = "test/req";
        let mut ok = true;
        match r.below(24) {
            0 => a["mode"] = json!("now"),
            1 => {
                a["fail"] = json!(true);
                ok = false
            }
            2 => {
                a["mode"] = json!("early");
                ok = false
            }
            3 => {
                a["mode"] = json!("sleep");
                a["n"] = json!(r.below(2000));
            }
            4 => {
                method = "test/raw";
                a["mode"] = json!(if k < 2000 { *r.pick(&["self", "twice", "thread", "race"]) } else { "twice" });
            }
            _ => {
                a["mode"] = json!("gate");
                if r.chance(1, 10) {
                    a["fail"] = json!(true);
                    ok = false;
                }
                gated.push(t.clone());
            }
        }
        if a["mode"] != "gate" {
            at_once += 1;
        }
        if k == b.requests / 2 {
            // A while in which the loop does nothing else.
            a["block"] = json!(300);
        }
        want.insert(id.to_string(), (t.clone(), ok));
        order.push(t);
        live.send(&request(p, &id, method, a));
        if k == b.requests / 3 {
            ask(&mut live, &mut order);
        }
    }
    if b.requests == 0 {
        ask(&mut live, &mut order);
    }
    if !b.stall.is_zero() {
        std::thread::sleep(b.stall.saturating_sub(began.elapsed()));
        live.hold(false);
    }
    must!(until(&live, b.calls, |v| v["method"] == "client/call"), Calls, "large:server-requests-missing", json!(b.calls));
    must!(until(&live, at_once, |v| is_response(p, v)), Answers, "large:responses-missing", json!({"expected_so_far": at_once}));
    if !gated.is_empty() && !c.has_pending_requests() {
        found.push(Found(Pending, "large:nothing-pending", json!({"gated": gated.len()})));
    }
    std::thread::sleep(b.slow);
    // Answers to the server's requests, in any order.
    let mut ids: Vec<(String, Value)> = {
        let st = live.out.st.lock().unwrap();
        let f = st.frames.iter().filter(|(v, _)| v["method"] == "client/call");
        f.map(|(v, _)| (v["params"]["token"].as_str().unwrap_or("?").to_string(), v["id"].clone())).collect()
    };
    let distinct = ids.iter().map(|(_, i)| i.to_string()).collect::<std::collections::HashSet<_>>().len();
    if distinct != b.calls || ids.len() != b.calls {
        found.push(Found(Calls, "large:server-request-ids", json!({"sent": ids.len(), "distinct": distinct, "asked": b.calls})));
    }
    r.shuffle(&mut ids);
    r.shuffle(&mut gated);
    let mut callbacks = vec![];
    for k in 0..ids.len().max(gated.len()) {
        if let Some((t, id)) = ids.get(k) {
            live.send(&json!({"jsonrpc": "2.0", "id": id, "result": {"of": t}}));
            callbacks.push((t.clone(), json!({"result": {"of": t}, "error": null})));
        }
        if let Some(t) = gated.get(k) {
            live.obs.release(t);
        }
    }
    must!(until(&live, b.requests + 1, |v| is_response(p, v)), Answers, "large:responses-missing", json!({"expected": b.requests + 1}));
    must!(until(&live, b.notes, |v| is_note(p, v)), Notes, "large:notes-missing", json!({"told": b.notes}));
    for h in senders {
        let _ = h.join();
    }
    let _ = teller.join();
    // Behind everything.
    std::thread::sleep(b.slow / 2);
    c.send_event(EvB(999, 0));
    let end = Instant::now() + LIMIT;
    loop {
        let done = live.obs.log.lock().unwrap().iter().rev().any(|r| matches!(r, Rec::Event { sender: 999, .. }));
        if done {
            break;
        }
        must!(Instant::now() < end, Events, "large:event-missing", Value::Null);
        std::thread::sleep(Duration::from_millis(2));
    }
    live.send(&request(p, &json!(100_000_001), "test/req", json!({"token": "last"})));
    order.push("last".into());
    must!(until(&live, b.requests + 2, |v| is_response(p, v)), Answers, "large:no-last-response", Value::Null);
    let end = Instant::now() + Duration::from_secs(20);
    while c.has_pending_requests() {
        // The answer leaves before the books are closed; both end at once.
        if Instant::now() > end {
            found.push(Found(Pending, "large:still-pending", Value::Null));
            break;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    live.close();
    match live.done.recv_timeout(LIMIT) {
        Ok((Ok(()), Ok(()))) => {}
        o => found.push(Found(Answers, "large:end", json!(format!("{o:?}")))),
    }
    // ---- what was seen
    let st = live.out.st.lock().unwrap();
    let mut notes = 0u64;
    let mut answered: HashMap<String, usize> = HashMap::new();
    for (v, text) in &st.frames {
        if is_note(p, v) {
            let body = if p == Proto::Dap { &v["body"] } else { &v["params"] };
            if body["n"] != notes || body["body"].as_str().map(str::len) != Some((notes % 50) as usize) {
                found.push(Found(Notes, "large:notes-differ", json!({"at": notes, "frame": text})));
                break;
            }
            notes += 1;
        } else if is_response(p, v) {
            let id = if p == Proto::Dap { &v["request_seq"] } else { &v["id"] };
            *answered.entry(id.to_string()).or_default() += 1;
            let Some((t, ok)) = want.get(&id.to_string()) else { continue };
            let n: u64 = t[1..].parse().unwrap_or(0);
            let good = match (p, ok) {
                (Proto::Lsp, true) => v["result"]["token"] == **t && v["result"]["echo"] == n && v.get("error").is_none_or(Value::is_null),
                (Proto::Lsp, false) => v["error"]["message"] == format!("failed {t}") && v.get("result").is_none_or(Value::is_null),
                (_, true) => v["success"] == true && v["body"]["token"] == **t && v["body"]["echo"] == n,
                (_, false) => v["success"] == false && v["message"] == format!("failed {t}"),
            };
            if !good {
                found.push(Found(Answers, "large:answer-differs", json!({"frame": text, "token": t, "succeeds": ok})));
                break;
            }
        }
    }
    if notes != b.notes as u64 && !found.iter().any(|f| f.0 == Notes) {
        found.push(Found(Notes, "large:notes-count", json!({"told": b.notes, "received": notes})));
    }
    if let Some((id, n)) = answered.iter().find(|(_, n)| **n != 1) {
        found.push(Found(Answers, "large:answered-twice", json!({"id": id, "times": n})));
    }
    if answered.len() != b.requests + 2 {
        found.push(Found(Answers, "large:answered-unasked", json!({"asked": b.requests + 2, "answered": answered.len()})));
    }
    drop(st);
    let log = live.obs.log.lock().unwrap();
    let handled: Vec<&String> = log
        .iter()
        .filter_map(|r| match r {
            Rec::Req { token, .. } => Some(token),
            Rec::Notif { token, .. } if token == "calls" => Some(token),
            _ => None,
        })
        .collect();
    if let Some(k) = (0..handled.len().max(order.len())).find(|k| handled.get(*k).copied() != order.get(*k)) {
        found.push(Found(Order, "large:handlers-differ", json!({"at": k, "handled": handled.get(k), "sent": order.get(k)})));
    }
    if live.obs.overlaps.load(Ordering::SeqCst) != 0 {
        found.push(Found(Order, "large:overlap", Value::Null));
    }
    let got: Vec<(String, Value)> = log
        .iter()
        .filter_map(|r| match r {
            Rec::Callback { token, body, .. } => Some((token.clone(), body.clone())),
            _ => None,
        })
        .collect();
    if got != callbacks {
        let k = got.iter().zip(&callbacks).position(|(a, b)| a != b).unwrap_or(got.len().min(callbacks.len()));
        found.push(Found(Calls, "large:callbacks-differ", json!({"at": k, "got": got.get(k), "want": callbacks.get(k), "answered": callbacks.len(), "ran": got.len()})));
    }
    let mut next: BTreeMap<u64, u64> = BTreeMap::new();
    for rec in log.iter() {
        if let Rec::Event { sender, n, .. } = rec {
            let e = next.entry(*sender).or_default();
            if *n != *e {
                found.push(Found(Events, "large:events-differ", json!({"sender": sender, "expected": e, "handled": n})));
                break;
            }
            *e += 1;
        }
    }
    if (0..3).any(|s| next.get(&s).copied().unwrap_or(0) != b.events) && !found.iter().any(|f| f.0 == Events) {
        found.push(Found(Events, "large:events-count", json!({"sent_by_each": b.events, "handled": next})));
    }
    ctx.count("large_requests", b.requests as u64);
    ctx.count("large_server_requests", b.calls as u64);
    ctx.count("large_events", 3 * b.events);
    ctx.count("large_notes", b.notes as u64);
    ctx.count("large_stalled_ms", b.stall.as_millis() as u64);
    ctx.count("large_pending_ms", b.slow.as_millis() as u64);
    ctx.eval(h64(&format!("{b:?}")), true);
    found
}

/// The large sessions that bear on a property, alongside of what else its check runs.
pub fn beside<T>(ctx: &Ctx, kinds: &[Kind], protos: &[Proto], f: impl FnOnce() -> T) -> T {
    let big = |p: Proto, requests: usize, calls: usize, notes: usize, events: u64, stall: u64, slow: u64| Big {
        p,
        requests,
        calls: if p == Proto::Lsp { calls } else { 0 },
        notes,
        events,
        stall: Duration::from_millis(stall),
        slow: Duration::from_millis(slow),
    };
    let deep = matches!(ctx.tier, vm_core::Tier::Thorough);
    let k = if deep { 4 } else { 1 };
    let mut plans = vec![];
    for &p in protos {
        plans.push(big(p, 24_000 * k, 12_000 * k, 20_000 * k, 40_000 * k as u64, 0, 0));
        plans.push(big(p, 400, 40, 500, 200, 700, 3_000));
        plans.push(big(p, 300, 300, 300, 300, 11_000, 1_000));
        plans.push(big(p, 60, 10, 50, 50, 3_500, 11_000));
        // One kind alone meets the client that does not read.
        plans.push(big(p, 600, 0, 0, 0, 11_000, 0));
        if p == Proto::Lsp {
            plans.push(big(p, 0, 400, 0, 0, 11_000, 0));
        }
        plans.push(big(p, 0, 0, 1_000, 0, 11_000, 0));
        if deep {
            plans.push(big(p, 200, 100, 100, 100, 65_000, 65_000));
            plans.push(big(p, 200, 100, 100, 100, 0, 100_000));
        }
    }
    let found: Mutex<Vec<Found>> = Mutex::default();
    let t = std::thread::scope(|s| {
        for (n, b) in plans.iter().enumerate() {
            let (found, mut r) = (&found, ctx.rng(0x5ca1_e000 + n as u64));
            s.spawn(move || {
                let fs = run(ctx, &mut r, b);
                let plan = format!("{b:?}");
                found.lock().unwrap().extend(fs.into_iter().map(|f| Found(f.0, f.1, json!({"session": plan, "what": f.2}))));
            });
        }
        f()
    });
    for f in found.into_inner().unwrap() {
        if kinds.contains(&f.0) {
            ctx.violate(f.1, f.2);
        } else {
            ctx.count("other_findings", 1);
        }
    }
    t
}
