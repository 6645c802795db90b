//! C06 server-to-client requests, C08 internal events.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

use sync_ls::LspClient;
use vm_core::{h64, json, parallel, Ctx, Rng, Value};

use crate::framing::Proto;
use crate::scale::{beside, Kind::*};
use crate::server::{EvA, EvB, EvFail, EvUnknown, Rec};
use crate::session::{start, Live};

/// A run ends early when there is no progress within the limit.
enum Stop {
    Hang(String),
    Bad(String, Value),
}

fn request(live: &mut Live, p: Proto, id: i64, method: &str, params: Value) {
    let v = match p {
        Proto::Lsp => json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}),
        Proto::Dap => json!({"type": "request", "seq": id, "command": method, "arguments": params}),
    };
    live.send(&v);
}
fn notify(live: &mut Live, p: Proto, method: &str, params: Value) {
    let v = match p {
        Proto::Lsp => json!({"jsonrpc": "2.0", "method": method, "params": params}),
        Proto::Dap => json!({"type": "event", "seq": 1, "event": method, "body": params}),
    };
    live.send(&v);
}
fn await_response(live: &Live, p: Proto, id: i64, limit: Duration) -> Result<(), Stop> {
    let key = json!(id);
    let ok = live.out.wait(limit, |o| {
        o.frames.iter().any(|(v, _)| match p {
            Proto::Lsp => v.get("method").is_none() && v["id"] == key,
            Proto::Dap => v["type"] == "response" && v["request_seq"] == key,
        })
    });
    if ok {
        Ok(())
    } else if live.out.st.lock().unwrap().eof {
        Err(Stop::Bad("server-ended".into(), json!({"waiting_for": id})))
    } else {
        Err(Stop::Hang(format!("no response to {id}")))
    }
}
fn open(live: &mut Live, p: Proto, limit: Duration) -> Result<(), Stop> {
    request(live, p, 1_000_000, "initialize", json!({"token": "init"}));
    await_response(live, p, 1_000_000, limit)?;
    if p == Proto::Lsp {
        notify(live, p, "initialized", json!({"token": "initialized"}));
    }
    Ok(())
}
fn finish(live: &mut Live, limit: Duration) -> Result<Result<(), String>, Stop> {
    live.close();
    match live.done.recv_timeout(limit) {
        Ok((r, Ok(()))) => Ok(r),
        Ok((_, Err(e))) => Err(Stop::Bad("io-error".into(), json!(e))),
        Err(std::sync::mpsc::RecvTimeoutError::Timeout) => Err(Stop::Hang("server did not end".into())),
        Err(_) => Err(Stop::Bad("server-died".into(), Value::Null)),
    }
}

/// Runs a scenario, confirming a lack of progress with a longer limit.
fn confirmed(ctx: &Ctx, seed: u64, f: impl Fn(&mut Rng, Duration) -> Result<(), Stop>) {
    let mut r = f(&mut Rng::new(seed), Duration::from_secs(8));
    if matches!(r, Err(Stop::Hang(_))) {
        r = f(&mut Rng::new(seed), Duration::from_secs(40));
    }
    match r {
        Ok(()) => {}
        Err(Stop::Hang(w)) => ctx.violate("no-progress", json!({"what": w, "seed": seed})),
        Err(Stop::Bad(sig, d)) => ctx.violate(sig, json!({"what": d, "seed": seed})),
    }
    ctx.drain_panics("server", || json!({"seed": seed}));
}

// ------------------------------------------------------------------ C06

fn c06_case(ctx: &Ctx, r: &mut Rng, limit: Duration) -> Result<(), Stop> {
    let p = Proto::Lsp;
    let mut live = start(p, r);
    open(&mut live, p, limit)?;
    let mut next = 0usize;
    let mut sync = 0i64;
    // token -> wire id
    let mut ids: BTreeMap<String, Value> = BTreeMap::new();
    let mut unanswered: Vec<String> = vec![];
    let mut want: Vec<(String, Value)> = vec![];
    // Sent by the continuations of those that were answered.
    let mut nested: Vec<String> = vec![];
    for _ in 0..r.range(1, 6) {
        let k = r.range(1, 8);
        let toks: Vec<String> = (0..k)
            .map(|_| {
                next += 1;
                match r.below(8) {
                    0 | 1 => format!("cast{next}"),
                    2 => format!("again{next}"),
                    _ => format!("c{next}"),
                }
            })
            .collect();
        let threads = r.chance(1, 2);
        notify(&mut live, p, "test/call", json!({"token": format!("call{next}"), "calls": toks, "threads": threads}));
        if r.chance(1, 3) {
            sync += 1;
            request(&mut live, p, sync, "test/req", json!({"token": format!("q{sync}"), "mode": "yield", "n": 2}));
        }
        let total = next;
        let ok = live.out.wait(limit, |o| o.frames.iter().filter(|(v, _)| v["method"] == "client/call").count() >= total);
        if !ok {
            let st = live.out.st.lock().unwrap();
            if st.eof {
                return Err(Stop::Bad("server-ended".into(), json!("waiting for server requests")));
            }
            return Err(Stop::Hang("server request not sent".into()));
        }
        {
            let st = live.out.st.lock().unwrap();
            for (v, text) in &st.frames {
                if v["method"] == "client/call" {
                    let t = v["params"]["token"].as_str().unwrap_or("?").to_string();
                    match ids.get(&t) {
                        Some(id) if *id != v["id"] => return Err(Stop::Bad("sent-twice".into(), json!({"frame": text}))),
                        Some(_) => {}
                        None => {
                            if ids.values().any(|i| *i == v["id"]) {
                                return Err(Stop::Bad("duplicate-id".into(), json!({"frame": text, "ids": ids})));
                            }
                            if v.get("id").is_none_or(|i| i.is_null()) {
                                return Err(Stop::Bad("no-id".into(), json!({"frame": text})));
                            }
                            ids.insert(t, v["id"].clone());
                        }
                    }
                }
            }
        }
        ctx.count("server_requests", k as u64);
        unanswered.extend(toks);
        unanswered.append(&mut nested);
        r.shuffle(&mut unanswered);
        let leave = if r.chance(1, 3) { r.below(unanswered.len() + 1) } else { 0 };
        while unanswered.len() > leave {
            let t = unanswered.pop().unwrap();
            let id = ids[&t].clone();
            if r.chance(1, 4) {
                // the same digits as a string, or an id never used
                let bogus = if r.chance(1, 2) { json!(id.to_string()) } else { json!(i32::MAX - next as i32) };
                live.send(&json!({"jsonrpc": "2.0", "id": bogus, "result": {"bogus": t}}));
                ctx.count("bogus_responses", 1);
            }
            let (resp, body) = match r.below(4) {
                0 => (json!({"jsonrpc": "2.0", "id": id, "error": {"code": -5, "message": format!("no {t}")}}), json!({"result": null, "error": format!("no {t}")})),
                1 => (json!({"jsonrpc": "2.0", "id": id, "result": null}), json!({"result": null, "error": null})),
                _ => {
                    let e = r.json(2);
                    (json!({"jsonrpc": "2.0", "id": id, "result": {"of": t, "e": e}}), json!({"result": {"of": t, "e": e}, "error": null}))
                }
            };
            live.send(&resp);
            want.push((t.clone(), body));
            if t.starts_with("again") {
                next += 1;
                nested.push(format!("{t}+"));
                ctx.count("sent_by_continuations", 1);
            }
            if r.chance(1, 4) {
                live.send(&json!({"jsonrpc": "2.0", "id": id, "result": {"again": t}}));
                ctx.count("repeated_responses", 1);
            }
        }
        sync += 1;
        request(&mut live, p, sync, "test/req", json!({"token": format!("q{sync}")}));
        await_response(&live, p, sync, limit)?;
    }
    let got: Vec<(String, Value, u64)> = live
        .obs
        .log
        .lock()
        .unwrap()
        .iter()
        .filter_map(|r| match r {
            Rec::Callback { token, body, state } => Some((token.clone(), body.clone(), *state)),
            _ => None,
        })
        .collect();
    ctx.count("callbacks", got.len() as u64);
    let pairs: Vec<(String, Value)> = got.iter().map(|(t, b, _)| (t.clone(), b.clone())).collect();
    if pairs != want {
        let k = pairs.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(pairs.len().min(want.len()));
        return Err(Stop::Bad(
            "callbacks-differ".into(),
            json!({"first_difference": k, "want": want.get(k), "got": pairs.get(k), "want_len": want.len(), "got_len": pairs.len()}),
        ));
    }
    if got.iter().enumerate().any(|(i, g)| g.2 != i as u64 + 1) {
        return Err(Stop::Bad("callback-state".into(), json!(got.iter().map(|g| g.2).collect::<Vec<_>>())));
    }
    if live.obs.overlaps.load(Ordering::SeqCst) != 0 {
        return Err(Stop::Bad("overlap".into(), Value::Null));
    }
    if let Err(e) = finish(&mut live, limit)? {
        return Err(Stop::Bad("server-error".into(), json!(e)));
    }
    let n = live.out.st.lock().unwrap().frames.iter().filter(|(v, _)| v["method"] == "client/call").count();
    if n != next {
        return Err(Stop::Bad("server-requests-count".into(), json!({"want": next, "got": n})));
    }
    ctx.eval(h64(&format!("{want:?}")), !want.is_empty());
    ctx.sample(|| json!({"server_requests": next, "answered": want.len(), "first": want.first()}));
    Ok(())
}

pub fn c06(ctx: &Ctx) -> i32 {
    beside(ctx, &[Calls], &[Proto::Lsp], || {
        parallel(ctx, ctx.n(2000, 60_000), 8, |i| {
        if ctx.violations() >= 3 {
            return;
        }
        let mut r = ctx.rng(i as u64);
        confirmed(ctx, r.u64(), |r, l| c06_case(ctx, r, l));
    });
    });
    ctx.require("callbacks", 500);
    ctx.require("repeated_responses", 50);
    ctx.require("sent_by_continuations", 50);
    ctx.finish(
        "exploration",
        "sessions in which the server sends 1..48 requests, from the dispatch loop and from many threads at once, and the client \
         answers in random order, later, twice, with wrong or retyped ids, or not at all; non-trivial: at least one answered \
         request; oracle: ids pairwise distinct, the sequence of continuations equals the sequence of first genuine responses",
        &["continuations are instrumented ones of the harness"],
    )
}

// ------------------------------------------------------------------ C08

fn spawn_senders(c: &LspClient, r: &mut Rng, first: u64, senders: u64, per: u64) -> Vec<std::thread::JoinHandle<()>> {
    (first..first + senders)
        .map(|s| {
            let c = c.clone();
            let seed = r.u64();
            std::thread::spawn(move || {
                let mut r = Rng::new(seed);
                let typed = c.to_typed::<crate::server::S>();
                for n in 0..per {
                    match r.below(4) {
                        0 => c.send_event(EvA(s, n)),
                        1 => typed.send_event(EvB(s, n)),
                        2 => typed.send_event(EvA(s, n)),
                        _ => c.send_event(EvB(s, n)),
                    }
                    if r.chance(1, 6) {
                        c.send_event(EvUnknown);
                    }
                    if r.chance(1, 4) {
                        std::thread::yield_now();
                    }
                }
            })
        })
        .collect()
}

fn wait_event(live: &Live, sender: u64, limit: Duration) -> Result<(), Stop> {
    let end = Instant::now() + limit;
    loop {
        let seen = live.obs.log.lock().unwrap().iter().any(|r| matches!(r, Rec::Event { sender: s, .. } if *s == sender));
        if seen {
            return Ok(());
        }
        if live.out.st.lock().unwrap().eof {
            return Err(Stop::Bad("server-ended".into(), json!({"waiting_for_event": sender})));
        }
        if Instant::now() > end {
            return Err(Stop::Hang(format!("event {sender} not delivered")));
        }
        std::thread::sleep(Duration::from_micros(200));
    }
}

fn c08_case(ctx: &Ctx, r: &mut Rng, limit: Duration) -> Result<(), Stop> {
    let p = if r.chance(2, 3) { Proto::Lsp } else { Proto::Dap };
    let mut live = start(p, r);
    let c = live.client.clone();
    let mut sent: BTreeMap<u64, u64> = BTreeMap::new();
    let mut first = 1u64;
    let mut id = 0;
    let mut not_ready: BTreeSet<u64> = BTreeSet::new();
    let phases = r.range(1, 4);
    // Phase 0 lies before initialization, phase 1 around it, later ones in service.
    for phase in 0..=phases {
        let (k, per) = (r.range(0, 4) as u64, r.range(1, 30) as u64);
        let hs = spawn_senders(&c, r, first, k, per);
        for s in first..first + k {
            sent.insert(s, per);
            if phase == 0 {
                not_ready.insert(s);
            }
        }
        first += k;
        if phase == 1 {
            open(&mut live, p, limit)?;
        }
        if phase >= 2 || (phase == 0 && r.chance(1, 2)) {
            for _ in 0..r.below(12) {
                id += 1;
                let m = *r.pick(&["now", "yield", "sleep"]);
                request(&mut live, p, id, "test/req", json!({"token": format!("q{id}"), "mode": m, "n": 2}));
            }
        }
        if r.chance(1, 4) {
            // The client talks without a pause while the events arrive.
            for k in 0..r.range(20, 300) {
                notify(&mut live, p, if phase >= 2 { "test/notif" } else { "no/such" }, json!({"token": format!("flood{k}")}));
            }
            ctx.count("floods", 1);
        }
        for h in hs {
            let _ = h.join();
        }
        // Channel order: once this one is handled, so were all before it.
        let sentinel = 1_000_000 + phase as u64;
        c.send_event(EvB(sentinel, 0));
        sent.insert(sentinel, 1);
        if phase == 0 {
            not_ready.insert(sentinel);
        }
        wait_event(&live, sentinel, limit)?;
    }
    // Nothing of the client may be under way when the loop is made to fail.
    id += 1;
    request(&mut live, p, id, "test/req", json!({"token": format!("q{id}")}));
    for i in 1..=id {
        await_response(&live, p, i, limit)?;
    }
    let check = |live: &Live| -> Result<(), Stop> {
        let log = live.obs.log.lock().unwrap();
        let mut got: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
        for rec in log.iter() {
            if let Rec::Event { sender, n, ready, .. } = rec {
                got.entry(*sender).or_default().push(*n);
                if not_ready.contains(sender) && *ready {
                    return Err(Stop::Bad("event-state".into(), json!({"sender": sender, "ready": ready})));
                }
            }
        }
        for (s, n) in &sent {
            let want: Vec<u64> = (0..*n).collect();
            let have = got.get(s).cloned().unwrap_or_default();
            if have != want {
                return Err(Stop::Bad("events-differ".into(), json!({"sender": s, "sent": n, "handled": have})));
            }
        }
        if got.len() != sent.len() {
            return Err(Stop::Bad("events-invented".into(), json!({"senders": got.keys().collect::<Vec<_>>()})));
        }
        if live.obs.overlaps.load(Ordering::SeqCst) != 0 {
            return Err(Stop::Bad("overlap".into(), Value::Null));
        }
        Ok(())
    };
    check(&live)?;
    ctx.count("events", sent.values().sum());
    ctx.count("senders", sent.len() as u64);
    match r.below(3) {
        0 => {
            let m = if p == Proto::Lsp { "shutdown" } else { "disconnect" };
            request(&mut live, p, 2_000_000, m, Value::Null);
            await_response(&live, p, 2_000_000, limit)?;
            // The loop leaves service right after answering; a refused request shows that it has.
            request(&mut live, p, 2_000_001, "test/req", json!({"token": "late"}));
            await_response(&live, p, 2_000_001, limit)?;
            c.send_event(EvA(77_777, 0));
            request(&mut live, p, 2_000_002, "test/req", json!({"token": "late"}));
            await_response(&live, p, 2_000_002, limit)?;
            ctx.count("after_shutdown", 1);
            if let Err(e) = finish(&mut live, limit)? {
                return Err(Stop::Bad("server-error".into(), json!(e)));
            }
            check(&live)?;
        }
        1 => {
            c.send_event(EvFail("boom".into()));
            ctx.count("failing_handler", 1);
            match live.ended.recv_timeout(limit) {
                Ok(Err(e)) if e.contains("event failed: boom") => {}
                Ok(o) => return Err(Stop::Bad("failing-handler".into(), json!(format!("{o:?}")))),
                Err(std::sync::mpsc::RecvTimeoutError::Timeout) => return Err(Stop::Hang("loop did not end".into())),
                Err(_) => return Err(Stop::Bad("server-died".into(), Value::Null)),
            }
            let _ = finish(&mut live, limit)?;
        }
        _ => {
            if let Err(e) = finish(&mut live, limit)? {
                return Err(Stop::Bad("server-error".into(), json!(e)));
            }
        }
    }
    ctx.eval(h64(&format!("{sent:?}{id}")), sent.len() > 2);
    ctx.sample(|| json!({"proto": format!("{p:?}"), "events_per_sender": sent, "requests": id}));
    Ok(())
}

pub fn c08(ctx: &Ctx) -> i32 {
    beside(ctx, &[Events], &[Proto::Lsp, Proto::Dap], || {
        parallel(ctx, ctx.n(1500, 40_000), 8, |i| {
        if ctx.violations() >= 3 {
            return;
        }
        let mut r = ctx.rng(i as u64);
        confirmed(ctx, r.u64(), |r, l| c08_case(ctx, r, l));
    });
    });
    ctx.require("events", 1000);
    ctx.require("failing_handler", 5);
    ctx.require("after_shutdown", 5);
    ctx.finish(
        "exploration",
        "1..16 concurrent senders of two event types (and unregistered ones) before, during and after initialization, mixed with \
         client requests, then shutdown, a failing handler, or the end of input; non-trivial: more than two senders; oracle: each \
         sender's events handled exactly once in order, none invented, none after shutdown, the loop ends with the handler's error",
        &["events queued when the session ends are not claimed"],
    )
}

// ------------------------------------------------------------------ C14

/// Everything that the server tells of its own accord, by whom.
fn c14_case(ctx: &Ctx, r: &mut Rng, limit: Duration) -> Result<(), Stop> {
    let p = if r.chance(1, 2) { Proto::Lsp } else { Proto::Dap };
    let dap = p == Proto::Dap;
    let mut live = start(p, r);
    let c = live.client.clone();
    // Who tells what, in order.
    let mut told: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    let early = r.chance(1, 3);
    if !early {
        open(&mut live, p, limit)?;
    }
    let mut hs = vec![];
    for k in 0..r.range(1, 5) {
        let from = format!("thread{k}");
        let bodies: Vec<Value> = (0..r.range(1, 60) as u64).map(|n| json!({"from": from, "n": n, "body": r.json(2)})).collect();
        told.insert(from, bodies.clone());
        let c = c.to_typed::<crate::server::S>();
        let seed = r.u64();
        hs.push(std::thread::spawn(move || {
            let mut r = Rng::new(seed);
            for b in bodies {
                crate::server::tell(&c, dap, r.chance(1, 2), b);
                if r.chance(1, 5) {
                    std::thread::yield_now();
                }
            }
        }));
    }
    if early {
        open(&mut live, p, limit)?;
    }
    let requests = r.range(0, 20) as i64;
    for id in 1..=requests {
        let (k, echo) = (r.below(5) as u64, r.json(1));
        let t = format!("q{id}");
        let mode = *r.pick(&["now", "early", "yield", "sleep"]);
        request(&mut live, p, id, "test/req", json!({"token": t, "mode": mode, "n": 2, "emit": k, "dap": dap, "echo": echo}));
        told.insert(t.clone(), (0..k).map(|n| json!({"from": t, "n": n, "body": echo})).collect());
    }
    for h in hs {
        let _ = h.join();
    }
    for id in 1..=requests {
        await_response(&live, p, id, limit)?;
    }
    // Nothing may come late: the answer to one more request is behind everything.
    let last = 2_000_000;
    request(&mut live, p, last, "test/req", json!({"token": "last"}));
    await_response(&live, p, last, limit)?;
    let mut got: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    let mut seqs: BTreeSet<i64> = BTreeSet::new();
    {
        let st = live.out.st.lock().unwrap();
        let mut answered: BTreeSet<i64> = BTreeSet::new();
        for (v, text) in &st.frames {
            let (note, body) = if dap { (v["type"] == "event", &v["body"]) } else { (v.get("id").is_none(), &v["params"]) };
            if !note {
                answered.extend(v[if dap { "request_seq" } else { "id" }].as_i64());
                continue;
            }
            let name = &v[if dap { "event" } else { "method" }];
            let from = body["from"].as_str().unwrap_or("?").to_string();
            if *name != "vm/note" && *name != crate::server::note_name(body) {
                return Err(Stop::Bad("unasked-note".into(), json!({"frame": text})));
            }
            if from.strip_prefix('q').and_then(|n| n.parse().ok()).is_some_and(|n: i64| answered.contains(&n)) {
                return Err(Stop::Bad("note-after-response".into(), json!({"frame": text})));
            }
            // Untyped events carry the number they were given.
            let seq = v["seq"].as_i64().unwrap_or(-1);
            if dap && seq < 1_000_000_000 && !seqs.insert(seq) {
                return Err(Stop::Bad("repeated-seq".into(), json!({"frame": text})));
            }
            got.entry(from).or_default().push(body.clone());
        }
    }
    told.retain(|_, v| !v.is_empty());
    for (from, want) in &told {
        let have = got.get(from).cloned().unwrap_or_default();
        if have != *want {
            let k = have.iter().zip(want).position(|(a, b)| a != b).unwrap_or(have.len().min(want.len()));
            return Err(Stop::Bad(
                "notes-differ".into(),
                json!({"from": from, "told": want.len(), "received": have.len(), "first_difference": k, "want": want.get(k), "got": have.get(k)}),
            ));
        }
    }
    if got.len() != told.len() {
        return Err(Stop::Bad("notes-invented".into(), json!(got.keys().collect::<Vec<_>>())));
    }
    if let Err(e) = finish(&mut live, limit)? {
        return Err(Stop::Bad("server-error".into(), json!(e)));
    }
    // After the end there is nobody to tell: that neither fails nor blocks.
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let c = c.to_typed::<crate::server::S>();
        crate::server::tell(&c, dap, true, json!({"from": "late"}));
        crate::server::tell(&c, dap, false, json!({"from": "late"}));
        c.send_event(EvA(0, 0));
        c.untyped().send_event(EvB(0, 0));
        if !dap {
            crate::server::call(&c, "late".into());
            c.respond_lsp(sync_ls::lsp::Response::new_ok(1.into(), "late"));
        }
        c.has_pending_requests();
        let _ = tx.send(());
    });
    match rx.recv_timeout(limit) {
        Ok(()) => {}
        Err(std::sync::mpsc::RecvTimeoutError::Timeout) => return Err(Stop::Hang("telling after the end blocks".into())),
        Err(_) => return Err(Stop::Bad("telling-after-the-end".into(), Value::Null)),
    }
    ctx.count("notes", told.values().map(|v| v.len() as u64).sum());
    ctx.count("tellers", told.len() as u64);
    ctx.eval(h64(&format!("{told:?}")), told.len() > 1);
    ctx.sample(|| json!({"proto": format!("{p:?}"), "notes": told.iter().map(|(k, v)| (k.clone(), v.len())).collect::<BTreeMap<_, _>>()}));
    Ok(())
}

pub fn c14(ctx: &Ctx) -> i32 {
    beside(ctx, &[Notes], &[Proto::Lsp, Proto::Dap], || {
        parallel(ctx, ctx.n(1500, 40_000), 8, |i| {
        if ctx.violations() >= 3 {
            return;
        }
        let mut r = ctx.rng(i as u64);
        confirmed(ctx, r.u64(), |r, l| c14_case(ctx, r, l));
    });
    });
    ctx.require("notes", 1000);
    ctx.finish(
        "exploration",
        "1..5 threads and up to 20 handlers that send notifications (LSP) or events (DAP), typed and untyped, before and after          initialization and after the end; non-trivial: several tellers; oracle: each teller's messages arrive once, equal, in order,          a handler's before its response; numbers of typed events are distinct; nothing else arrives",
        &["untyped events carry the number that the caller gave them"],
    )
}

pub fn c06_one(ctx: &Ctx, r: &mut Rng) {
    confirmed(ctx, r.u64(), |r, l| c06_case(ctx, r, l * 4));
}
pub fn c14_one(ctx: &Ctx, r: &mut Rng) {
    confirmed(ctx, r.u64(), |r, l| c14_case(ctx, r, l * 4));
}
pub fn c08_one(ctx: &Ctx, r: &mut Rng) {
    confirmed(ctx, r.u64(), |r, l| c08_case(ctx, r, l * 4));
}
