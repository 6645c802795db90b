//! C15: the bookkeeping of requests and the messages made from it.

use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde::ser::{Error as _, Serializer};
use serde::{Deserialize, Serialize};
use sync_ls::req_queue::ReqQueue;
use sync_ls::*;
use vm_core::{guard, h64, json, parallel, watched, Ctx, Rng, Value, Watched};

use crate::session::{connect, runtime};

type Bad = (&'static str, Value);
type Res = Result<(), Bad>;

/// An id as the client sees it.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Id {
    Int(i64),
    Str(String),
}
impl Id {
    fn make(&self) -> RequestId {
        match self {
            Id::Int(i) => RequestId::from(*i),
            Id::Str(s) => RequestId::from(s.clone()),
        }
    }
    fn json(&self) -> Value {
        match self {
            Id::Int(i) => json!(i),
            Id::Str(s) => json!(s),
        }
    }
}

fn id(r: &mut Rng) -> Id {
    match r.below(8) {
        0..=2 => Id::Int(r.below(6) as i64),
        3 => Id::Int(*r.pick(&[-1, i64::MAX, i64::MIN, i32::MAX as i64, i32::MIN as i64, 1 << 32, (1 << 32) + 1, 1 << 53])),
        4 | 5 => Id::Str(r.below(6).to_string()),
        6 => Id::Str(r.one(&["", "-1", "a", "A", "a\"b", "\u{0}", "é", "e\u{301}", "00", "0 "]).to_string()),
        _ => Id::Str(r.text(6)),
    }
}

fn value(v: &impl Serialize) -> Value {
    serde_json::to_value(v).unwrap_or(json!("unserializable"))
}

// ------------------------------------------------------------------ the tables

fn tables(ctx: &Ctx, r: &mut Rng) -> Res {
    let mut q: ReqQueue<u64, u64> = ReqQueue::default();
    let mut inc: BTreeMap<Id, u64> = BTreeMap::new();
    let mut out: BTreeMap<Id, u64> = BTreeMap::new();
    let mut used: HashSet<Id> = HashSet::new();
    let mut trace: Vec<String> = vec![];
    // Now and then tens of thousands are pending at once.
    let large = r.chance(1, 200);
    let steps = if large { r.range(40_000, 90_000) } else { r.range(5, 120) };
    ctx.count("large_tables", large as u64);
    for n in 0..steps as u64 {
        let i = match (large, r.below(2)) {
            (false, _) => id(r),
            (_, 0) => Id::Int(r.below(60_000) as i64 - 30_000),
            _ => Id::Str((r.below(60_000) as i64 - 30_000).to_string()),
        };
        let step = if large && r.chance(2, 3) { *r.pick(&[0, 1, 5]) } else { r.below(10) };
        if trace.len() > 300 {
            trace.drain(..200);
        }
        trace.push(format!("{step} {i:?}"));
        let bad = |what: &'static str, want: Value, got: Value| Err((what, json!({"trace": trace, "want": want, "got": got})));
        match step {
            0..=2 => {
                q.incoming.register(i.make(), n);
                inc.insert(i.clone(), n);
            }
            3 => {
                let (want, got) = (inc.remove(&i), q.incoming.complete(&i.make()));
                if want != got {
                    return bad("incoming-complete", json!(want), json!(got));
                }
            }
            4 => {
                let want = inc.remove(&i).map(|_| {
                    json!({"id": i.json(), "error": {"code": -32800, "message": "canceled by client"}})
                });
                let got = q.incoming.cancel(i.make()).map(|m| value(&m));
                // The wording is free.
                let strip = |v: &Option<Value>| {
                    let mut v = v.clone();
                    if let Some(v) = v.as_mut().and_then(|v| v.get_mut("error")).and_then(|v| v.as_object_mut()) {
                        v.insert("message".into(), json!(v["message"].is_string()));
                    }
                    v
                };
                if strip(&want) != strip(&got) {
                    return bad("incoming-cancel", json!(want), json!(got));
                }
                ctx.count("cancelled", got.is_some() as u64);
            }
            5 | 6 => {
                let d = r.json(2);
                let m = r.text(8);
                let req = q.outgoing.register(m.clone(), &d, n);
                let wire: Id = match value(&req.id) {
                    Value::String(s) => Id::Str(s),
                    v => Id::Int(v.as_i64().unwrap_or(i64::MIN)),
                };
                if !used.insert(wire.clone()) {
                    return bad("outgoing-id-reused", json!("a new id"), json!(format!("{wire:?}")));
                }
                if req.method != m || req.params != d {
                    return bad("outgoing-request", json!([m, d]), value(&req));
                }
                out.insert(wire, n);
                ctx.count("registered", 1);
            }
            7 => {
                let a = q.outgoing.alloc_request_id();
                if !used.insert(Id::Int(a as i64)) {
                    return bad("outgoing-id-reused", json!("a new id"), json!(a));
                }
            }
            _ => {
                let k = if r.chance(2, 3) && !out.is_empty() {
                    let n = r.below(out.len().min(300));
                    out.keys().nth(n).cloned().unwrap_or(i.clone())
                } else {
                    i.clone()
                };
                let (want, got) = (out.remove(&k), q.outgoing.complete(k.make()));
                if want != got {
                    return bad("outgoing-complete", json!(want), json!([format!("{k:?}"), got]));
                }
                ctx.count("completed", got.is_some() as u64);
            }
        }
        let (want, got) = (!inc.is_empty(), q.incoming.has_pending());
        if want != got {
            return bad("has-pending", json!(want), json!(got));
        }
        let j = id(r);
        for i in [&i, &j] {
            let (want, got) = (!inc.contains_key(i), q.incoming.is_completed(&i.make()));
            if want != got {
                return bad("is-completed", json!(want), json!([format!("{i:?}"), got]));
            }
        }
    }
    ctx.eval(h64(&trace), !used.is_empty());
    Ok(())
}

// ------------------------------------------------------------------ messages

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Typed {
    a: u32,
    #[serde(default)]
    b: Option<String>,
}

fn messages(ctx: &Ctx, r: &mut Rng) -> Res {
    // Ids.
    let (x, y) = (id(r), id(r));
    let (a, b) = (x.make(), y.make());
    let bad = |what: &'static str, d: Value| Err((what, json!({"x": format!("{x:?}"), "y": format!("{y:?}"), "what": d})));
    if (a == b) != (x == y) || (b == a) != (x == y) {
        return bad("id-equality", json!({"equal": a == b}));
    }
    if (a.cmp(&b) == std::cmp::Ordering::Equal) != (x == y) || a.cmp(&b) != b.cmp(&a).reverse() || a.partial_cmp(&b) != Some(a.cmp(&b)) {
        return bad("id-order", json!(format!("{:?}", a.cmp(&b))));
    }
    if x == y && h64(&a) != h64(&b) {
        return bad("id-hash", Value::Null);
    }
    if (a.to_string() == b.to_string()) != (x == y) {
        return bad("id-display", json!([a.to_string(), b.to_string()]));
    }
    if value(&a) != x.json() || serde_json::from_value::<RequestId>(x.json()).ok() != Some(a.clone()) {
        return bad("id-wire-form", value(&a));
    }
    if let Id::Int(i) = x {
        if let Ok(i) = i32::try_from(i) {
            if RequestId::from(i) != a {
                return bad("id-from-i32", json!(i));
            }
        }
    }
    // Extraction by method.
    let m = r.text(5);
    let other = match r.below(4) {
        0 => format!("{m}x"),
        1 => m.chars().skip(1).collect(),
        2 => m.chars().take(m.chars().count().saturating_sub(1)).collect(),
        _ => m.to_uppercase(),
    };
    let (params, typed) = match r.below(5) {
        0 => {
            let n = r.below(1000) as u32;
            (json!({"a": n, "b": "t"}), Some(Typed { a: n, b: Some("t".into()) }))
        }
        1 => {
            let n = r.u64() as u32;
            (json!({"a": n, "zzz": r.json(1)}), Some(Typed { a: n, b: None }))
        }
        2 => (json!({"a": -1}), None),
        3 => (json!({"b": "t"}), None),
        _ => (r.one(&["null", "[]", "7", "{}", "\"a\""]).parse().unwrap_or(Value::Null), None),
    };
    let req = lsp::Request::new(a.clone(), m.clone(), &params);
    let not = lsp::Notification::new(m.clone(), &params);
    if req.id != a || req.method != m || req.params != params || not.method != m || not.params != params {
        return bad("made-differently", json!([value(&req), value(&not)]));
    }
    ctx.count("extractions", 2);
    match (req.clone().extract::<Typed>(&m), &typed) {
        (Ok((i, p)), Some(t)) if i == a && p == *t => {}
        (Err(ExtractError::JsonError { method, .. }), None) if method == m => {}
        (got, want) => return bad("extracted", json!({"want": want, "got": format!("{got:?}"), "params": params})),
    }
    match (not.clone().extract::<Typed>(&m), &typed) {
        (Ok(p), Some(t)) if p == *t => {}
        (Err(ExtractError::JsonError { method, .. }), None) if method == m => {}
        (got, want) => return bad("extracted", json!({"want": want, "got": format!("{got:?}"), "params": params})),
    }
    if other != m {
        match req.clone().extract::<Value>(&other) {
            Err(ExtractError::MethodMismatch(same)) if value(&same) == value(&req) => {}
            got => return bad("mismatch", json!({"method": m, "asked": other, "got": format!("{got:?}")})),
        }
        match not.clone().extract::<Value>(&other) {
            Err(ExtractError::MethodMismatch(same)) if value(&same) == value(&not) => {}
            got => return bad("mismatch", json!({"method": m, "asked": other, "got": format!("{got:?}")})),
        }
    }
    // Errors.
    let t = r.text(12);
    let made = [
        (invalid_params(&t), -32602, Some(&t)),
        (internal_error(&t), -32603, Some(&t)),
        (invalid_request(&t), -32600, Some(&t)),
        (method_not_found(), -32601, None),
        (not_initialized(), -32002, None),
    ];
    for (e, code, text) in made {
        if e.code != code || text.is_some_and(|t| *t != e.message) || e.message.is_empty() != text.is_some_and(|t| t.is_empty()) {
            return bad("error-made", json!({"want": code, "got": value(&e)}));
        }
    }
    // The numbers that the specifications of JSON-RPC and the protocol assign.
    use ErrorCode::*;
    let codes = [
        (ParseError, -32700),
        (InvalidRequest, -32600),
        (MethodNotFound, -32601),
        (InvalidParams, -32602),
        (InternalError, -32603),
        (ServerErrorStart, -32099),
        (ServerErrorEnd, -32000),
        (ServerNotInitialized, -32002),
        (UnknownErrorCode, -32001),
        (RequestCanceled, -32800),
        (ContentModified, -32801),
        (ServerCancelled, -32802),
        (RequestFailed, -32803),
    ];
    for (c, n) in codes {
        if c as i32 != n {
            return bad("error-code", json!({"code": format!("{c:?}"), "want": n, "got": c as i32}));
        }
    }
    // Responses.
    let d = r.json(2);
    let ok = value(&lsp::Response::new_ok(a.clone(), &d));
    let code = r.u64() as i32;
    let err = value(&lsp::Response::new_err(a.clone(), code, t.clone()));
    if ok != json!({"id": x.json(), "result": d}) || err != json!({"id": x.json(), "error": {"code": code, "message": t}}) {
        return bad("response-made", json!([ok, err]));
    }
    ctx.eval(h64(&format!("{x:?}{y:?}{m}{params}")), true);
    Ok(())
}

// ------------------------------------------------------------------ the client handle

/// Fails to serialize.
struct Stubborn;
impl Serialize for Stubborn {
    fn serialize<T: Serializer>(&self, _: T) -> Result<T::Ok, T::Error> {
        Err(T::Error::custom("stubborn"))
    }
}

struct Svc {
    client: TypedLspClient<Svc>,
    done: Vec<(String, Value)>,
    part: Part,
}
struct Part {
    done: Vec<(String, Value)>,
}

enum Ask {}
impl lsp_types::request::Request for Ask {
    type Params = Value;
    type Result = Value;
    const METHOD: &'static str = "vm/ask";
}

fn ask(c: &TypedLspClient<Svc>, token: String, deep: u64) {
    if deep == 0 && token.len() % 2 == 0 {
        c.cast::<Part>(|s| &mut s.part).send_lsp_request::<Ask>(json!({"token": token}), move |p, resp| {
            p.done.push((token, resp.result.unwrap_or_default()));
        });
        return;
    }
    c.send_lsp_request::<Ask>(json!({"token": token}), move |s: &mut Svc, resp| {
        // A continuation may use the client as anybody may.
        if deep > 0 {
            s.client.has_pending_requests();
            ask(&s.client.clone(), format!("{token}+"), deep - 1);
        }
        s.done.push((token, resp.result.unwrap_or_default()));
    });
}

fn handle_case(ctx: &Ctx, mut r: Rng) -> Res {
    let r = &mut r;
    let (tx, rx) = crossbeam_channel::unbounded::<Message>();
    let (_in, in_rx) = crossbeam_channel::unbounded::<Message>();
    let (es, er) = crossbeam_channel::unbounded::<Event>();
    let conn = connect::<LspMessage>(tx, in_rx, es, er);
    let root = LspClientRoot::new(runtime().handle().clone(), conn.sender);
    let events = conn.receiver;
    let c = root.weak();
    // 1. Rounds: ids are registered, then several threads race to answer each; ids come back in later rounds.
    let pool: Vec<Id> = {
        let mut v: Vec<Id> = (0..r.range(1, 8)).map(|_| id(r)).collect();
        v.sort();
        v.dedup();
        v
    };
    if c.has_pending_requests() {
        return Err(("pending-at-first", Value::Null));
    }
    let rounds = r.range(1, 6) as u64;
    for round in 0..rounds {
        let mut now: Vec<Id> = pool.iter().filter(|_| r.chance(2, 3)).cloned().collect();
        r.shuffle(&mut now);
        for i in &now {
            c.register_request("vm/round", &i.make(), Instant::now());
        }
        if c.has_pending_requests() == now.is_empty() {
            return Err(("pending", json!({"registered": format!("{now:?}"), "pending": c.has_pending_requests()})));
        }
        let answered = Arc::new(Mutex::new(BTreeMap::<Id, Vec<Value>>::new()));
        let mut hs = vec![];
        for k in 0..r.range(1, 4) as u64 {
            let (c, seed) = (c.clone(), r.u64());
            let mut ids: Vec<Id> = pool.clone();
            r.shuffle(&mut ids);
            let answered = answered.clone();
            hs.push(std::thread::spawn(move || {
                let mut r = Rng::new(seed);
                for i in ids {
                    // Answers given later could meet the same id of a later round.
                    let how = r.below(if round + 1 == rounds { 6 } else { 4 });
                    let rid = i.make();
                    let by = json!({"round": round, "by": k});
                    let want = match how {
                        1 => json!({"error": {"code": 7 + k, "message": format!("r{round}")}}),
                        2 => json!({"error": {"code": -32603}}),
                        _ => json!({"result": by}),
                    };
                    answered.lock().unwrap().entry(i.clone()).or_default().push(want);
                    match how {
                        0 => c.respond_lsp(lsp::Response::new_ok(rid, by)),
                        1 => c.respond_result::<Value>(rid, Err(ResponseError { code: 7 + k as i32, message: format!("r{round}"), data: None })),
                        2 => c.respond_result(rid, Ok(Stubborn)),
                        3 => {
                            let _ = c.schedule(rid, just_ok(by));
                        }
                        _ => {
                            let _ = c.schedule::<Value>(
                                rid,
                                just_future(async move {
                                    tokio::task::yield_now().await;
                                    Ok(by)
                                }),
                            );
                        }
                    }
                }
            }));
        }
        for h in hs {
            if h.join().is_err() {
                return Err(("responder-panicked", Value::Null));
            }
        }
        // One response per registered id, by one of those who tried.
        let mut left: HashSet<Id> = now.iter().cloned().collect();
        while !left.is_empty() {
            let Ok(m) = rx.recv_timeout(Duration::from_secs(20)) else {
                return Err(("not-answered", json!({"left": format!("{left:?}"), "round": round})));
            };
            let Message::Lsp(lsp::Message::Response(m)) = m else {
                return Err(("other-message", json!(format!("{m:?}"))));
            };
            let mut v = value(&m);
            let i = match v["id"].take() {
                Value::String(s) => Id::Str(s),
                v => Id::Int(v.as_i64().unwrap_or(i64::MIN)),
            };
            if !left.remove(&i) {
                return Err(("answered-again", json!({"id": format!("{i:?}"), "response": v, "registered": format!("{now:?}")})));
            }
            if let Some(o) = v.as_object_mut() {
                o.remove("id");
            }
            if v["error"]["code"] == -32603 {
                v["error"].as_object_mut().map(|o| o.remove("message"));
            }
            let tried = answered.lock().unwrap();
            if !tried.get(&i).is_some_and(|t| t.contains(&v)) {
                return Err(("other-response", json!({"id": format!("{i:?}"), "response": v, "tried": tried.get(&i)})));
            }
            ctx.count("answers", 1);
        }
        // The spawned answers that came too late must stay silent: give them time to come.
        let end = Instant::now() + Duration::from_millis(3);
        while Instant::now() < end {
            if let Ok(m) = rx.try_recv() {
                return Err(("answered-again", json!({"message": format!("{m:?}"), "registered": format!("{now:?}"), "round": round})));
            }
            std::thread::yield_now();
        }
        if c.has_pending_requests() {
            return Err(("pending-after", json!({"round": round})));
        }
    }
    // 2. Server requests, with continuations that send more.
    let mut svc = Svc { client: c.to_typed(), done: vec![], part: Part { done: vec![] } };
    let mut want: Vec<(String, Value)> = vec![];
    let n = r.range(0, 12) as u64;
    let count = AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..r.range(1, 3) {
            let (typed, count, seed) = (svc.client.clone(), &count, r.u64());
            s.spawn(move || {
                let mut r = Rng::new(seed);
                for k in 0..n {
                    ask(&typed, format!("t{t}-{k}"), if r.chance(1, 3) { r.range(1, 3) as u64 } else { 0 });
                    count.fetch_add(1, Ordering::SeqCst);
                }
            });
        }
    });
    let mut ids: HashMap<RequestId, String> = HashMap::new();
    let mut open: Vec<(RequestId, String)> = vec![];
    let (mut total, mut seen) = (count.load(Ordering::SeqCst) as usize, 0);
    loop {
        while let Ok(m) = rx.try_recv() {
            let Message::Lsp(lsp::Message::Request(m)) = m else {
                return Err(("other-message", json!(format!("{m:?}"))));
            };
            let t = m.params["token"].as_str().unwrap_or("?").to_string();
            if let Some(old) = ids.insert(m.id.clone(), t.clone()) {
                return Err(("same-id", json!({"id": value(&m.id), "tokens": [old, t]})));
            }
            seen += 1;
            open.push((m.id, t));
        }
        if seen != total {
            return Err(("server-requests", json!({"sent": total, "seen": seen})));
        }
        if open.is_empty() {
            break;
        }
        let k = r.below(open.len());
        let (i, t) = open.swap_remove(k);
        let v = json!({"answer": t, "n": r.below(100)});
        let (d0, p0) = (svc.done.len(), svc.part.done.len());
        if r.chance(1, 4) {
            // A response to nothing.
            c.complete_lsp_request(&mut svc, lsp::Response::new_ok(RequestId::from(format!("{i}")), json!("bogus")));
            if svc.done.len() != d0 || svc.part.done.len() != p0 {
                return Err(("continuation-of-nothing", json!({"id": value(&i)})));
            }
        }
        c.complete_lsp_request(&mut svc, lsp::Response::new_ok(i.clone(), v.clone()));
        want.push((t, v));
        if svc.done.len() + svc.part.done.len() != d0 + p0 + 1 {
            return Err(("continuations-run", json!({"before": d0 + p0, "after": svc.done.len() + svc.part.done.len()})));
        }
        let last = if svc.done.len() > d0 { svc.done.last() } else { svc.part.done.last() };
        if last != want.last() {
            return Err(("other-continuation", json!({"want": want.last(), "got": last})));
        }
        if r.chance(1, 3) {
            c.complete_lsp_request(&mut svc, lsp::Response::new_ok(i, json!("again")));
            if svc.done.len() + svc.part.done.len() != d0 + p0 + 1 {
                return Err(("continuation-twice", json!({"want": want.last()})));
            }
        }
        total += rx.len();
    }
    ctx.count("continuations", want.len() as u64);
    // 3. Events go to the server itself.
    let sent: Vec<u64> = (0..r.below(5) as u64).collect();
    for n in &sent {
        if r.chance(1, 2) {
            c.send_event(*n);
        } else {
            svc.client.send_event(*n);
        }
    }
    let got: Vec<u64> = events.event.try_iter().filter_map(|e| e.downcast::<u64>().ok().map(|b| *b)).collect();
    if got != sent {
        return Err(("events", json!({"sent": sent, "got": got})));
    }
    // 4. When nobody listens any more, whether or not the connection is gone, nothing fails or blocks, and what was pending
    // is settled all the same.
    let late = RequestId::from("late".to_string());
    c.register_request("vm/late", &late, Instant::now());
    let keep = r.chance(1, 2);
    let root = if keep { Some(root) } else { drop(root); None };
    let listening = keep && r.chance(1, 2);
    let rx = if listening { Some(rx) } else { drop(rx); None };
    drop(events);
    c.send_event(1u64);
    svc.client.send_event(2u64);
    svc.client.clone().to_untyped().send_event(3u64);
    ask(&svc.client, "late".into(), 0);
    ask(&svc.client, "late!".into(), 1);
    c.send_notification_(lsp::Notification::new("vm/late".into(), json!(null)));
    svc.client.send_dap_event_(dap::Event::new(1, "late".into(), json!(null)));
    match r.below(3) {
        0 => c.respond_lsp(lsp::Response::new_ok(late, 1)),
        1 => c.respond_result(late, Ok(1)),
        _ => {
            let _ = c.schedule(late, just_ok(1));
        }
    }
    if c.has_pending_requests() {
        return Err(("pending-after-the-end", json!({"connected": keep})));
    }
    if let Some(rx) = rx {
        let n = rx.try_iter().count();
        if n != 5 {
            return Err(("after-events-closed", json!({"want": 5, "got": n})));
        }
    }
    drop(root);
    ctx.count("disconnected", !keep as u64);
    ctx.eval(h64(&format!("{pool:?}{want:?}")), !want.is_empty());
    Ok(())
}

// ------------------------------------------------------------------ the driver, used directly

struct Args(bool);
#[derive(Deserialize)]
struct P {
    n: u64,
}
struct St {
    n: u64,
    seen: Vec<Vec<Value>>,
}
impl Initializer for Args {
    type I = P;
    type S = St;
    fn initialize(self, p: P) -> (St, AnySchedulableResponse) {
        let res = if self.0 { just_ok(json!({"n": p.n})) } else { Err(invalid_params("no")) };
        (St { n: p.n, seen: vec![] }, res)
    }
}

fn driver(ctx: &Ctx, r: &mut Rng) -> Res {
    let (tx, rx) = crossbeam_channel::unbounded::<Message>();
    let (_in, in_rx) = crossbeam_channel::unbounded::<Message>();
    let (es, er) = crossbeam_channel::unbounded::<Event>();
    let conn = connect::<LspMessage>(tx, in_rx, es, er);
    let root = LspClientRoot::new(runtime().handle().clone(), conn.sender);
    let good = r.chance(2, 3);
    let mut d = LspBuilder::new(Args(good), root.weak())
        .with_resource("/a", |s: &mut St, a| {
            s.seen.push(a);
            just_ok(json!("a"))
        })
        .with_resource_(std::path::Path::new("/b").into(), |s: &mut St, _id, a| {
            s.seen.push(a);
            Ok(None)
        })
        .build();
    let rid = RequestId::from(1);
    let code = |e: &ScheduledResult| e.as_ref().err().map(|e| e.code);
    if d.state().is_some() || d.state_mut().is_some() {
        return Err(("state-before", Value::Null));
    }
    if code(&d.get_resources(rid.clone(), vec![json!("/a")])) != Some(-32002) {
        return Err(("resource-before", Value::Null));
    }
    let n = r.below(100) as u64;
    let first = d.ready(P { n });
    let first = match first {
        Ok(f) => runtime().block_on(async move {
            let mut f = Box::pin(f);
            f.as_mut().await;
            f.as_mut().take_output().and_then(|o| o.ok())
        }),
        Err(e) => Some(json!(e.code)),
    };
    let want = if good { json!({"n": n}) } else { json!(-32602) };
    if first != Some(want.clone()) {
        return Err(("ready", json!({"want": want, "got": first})));
    }
    if d.state().map(|s| s.n) != Some(n) || d.state_mut().map(|s| s.n) != Some(n) {
        return Err(("state", json!({"want": n, "got": d.state().map(|s| s.n)})));
    }
    let again = d.ready(P { n: n + 1 });
    let again = match again {
        Ok(f) => runtime().block_on(async move {
            let mut f = Box::pin(f);
            f.as_mut().await;
            f.as_mut().take_output().and_then(|o| o.err()).map(|e| e.code)
        }),
        Err(e) => Some(e.code),
    };
    if again != Some(-32600) || d.state().map(|s| s.n) != Some(n) {
        return Err(("ready-twice", json!({"got": again, "state": d.state().map(|s| s.n)})));
    }
    let mut seen = vec![];
    for _ in 0..r.range(1, 6) {
        let mut args = match r.below(6) {
            0 => vec![],
            1 => vec![json!(7)],
            2 => vec![json!("/c")],
            3 => vec![json!("/b")],
            _ => vec![json!("/a")],
        };
        if !args.is_empty() && r.chance(1, 2) {
            args.push(r.json(1));
        }
        root.weak().register_request("r", &rid, Instant::now());
        let got = d.get_resources(rid.clone(), args.clone());
        let sent: Vec<Value> = rx.try_iter().map(|m| match m {
            Message::Lsp(lsp::Message::Response(m)) => value(&m)["result"].clone(),
            m => json!(format!("{m:?}")),
        }).collect();
        let (want, response) = match args.first() {
            None => (json!(-32602), vec![]),
            Some(Value::Number(_)) => (json!(-32602), vec![]),
            Some(v) if *v == "/a" => (json!("responded"), vec![json!("a")]),
            Some(v) if *v == "/b" => (json!("none"), vec![]),
            _ => (json!(-32601), vec![]),
        };
        if want == "responded" || want == "none" {
            seen.push(args.clone());
        }
        let got = match got {
            Ok(Some(())) => json!("responded"),
            Ok(None) => json!("none"),
            Err(e) => json!(e.code),
        };
        if got != want || sent != response {
            return Err(("resource", json!({"args": args, "want": want, "got": got, "sent": sent})));
        }
    }
    if d.state().map(|s| &s.seen) != Some(&seen) {
        return Err(("resource-arguments", json!({"want": seen, "got": d.state().map(|s| &s.seen)})));
    }
    ctx.count("drivers", 1);
    ctx.eval(h64(&format!("{seen:?}{n}")), !seen.is_empty());
    Ok(())
}

pub fn handle_one(ctx: &Ctx, r: &mut Rng) {
    if let Err((sig, d)) = handle_case(ctx, Rng::new(r.u64())) {
        ctx.violate(sig, d);
    }
}

pub fn c15(ctx: &Arc<Ctx>) -> i32 {
    let limit = Duration::from_secs(60);
    crate::scale::beside(ctx, &[crate::scale::Kind::Pending], &[crate::framing::Proto::Lsp, crate::framing::Proto::Dap], || {
        parallel(ctx, ctx.n(6000, 200_000), 8, |i| {
        if ctx.violations() >= 3 {
            return;
        }
        let mut r = ctx.rng(i as u64);
        let seed = r.u64();
        let part = i % 4;
        let res = match part {
            0 => guard(|| tables(ctx, &mut r)),
            1 => guard(|| messages(ctx, &mut r)),
            2 => guard(|| driver(ctx, &mut r)),
            // The handle may get stuck.
            _ => {
                let c = ctx.clone();
                match watched(limit, move || guard(|| handle_case(&c, Rng::new(seed)))) {
                    Watched::Done(v) => v,
                    _ => return ctx.violate("stuck", json!({"part": part, "case": i})),
                }
            }
        };
        match res {
            Ok(Ok(())) => {}
            Ok(Err((sig, d))) => ctx.violate(sig, json!({"what": d, "part": part, "case": i})),
            Err(p) => ctx.on_panic("request bookkeeping", &p, json!({"part": part, "case": i})),
        }
        ctx.drain_panics("handle", || json!({"case": i}));
    });
    });
    ctx.require("large_tables", 2);
    for k in ["registered", "completed", "cancelled", "extractions", "answers", "continuations", "drivers", "disconnected"] {
        ctx.require(k, 50);
    }
    ctx.finish(
        "exploration",
        "random histories of the tables of incoming and outgoing requests over colliding ids; ids, messages and errors of every kind; \
         client handles on which several threads race to answer, continuations that use the client, and handles whose session is over; \
         drivers made ready by hand; non-trivial: something was registered; oracle: a model of the tables, the numbers of the \
         specifications, exactly-once accounting of the messages sent",
        &["in-memory channels stand for the transport"],
    )
}
